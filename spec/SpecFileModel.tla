---------------------------- MODULE SpecFileModel ----------------------------
(***************************************************************************)
(* Every short file made of a few kinds of lines, printed for replay. No   *)
(* entry of what it means lies below another.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT Depth
S == INSTANCE SpecFile

VARIABLES s, ops
vars == <<s, ops>>
Init == s = S!InitState(0) /\ ops = <<>>

K(n) == [int |-> FALSE, k |-> n]
I(n) == [int |-> TRUE, k |-> n]
Num(m, e) == [t |-> "num", m |-> m, e |-> e]
Str(x) == [t |-> "str", x |-> x]
Entry(p, v) == [op |-> "line", kind |-> "entry", path |-> p, v |-> v]
Kind(k) == [op |-> "line", kind |-> k]
Lines == { Kind("blank"), Kind("comment"), Kind("rule"),
           [op |-> "line", kind |-> "name", name |-> "P"], [op |-> "line", kind |-> "name", name |-> "a"],
           Entry(<<K("a")>>, <<Num(5, 0)>>), Entry(<<K("b")>>, <<Str("x"), Num(-25, -1)>>),
           Entry(<<I("351"), K("a")>>, <<Num(2, -4)>>), Entry(<<I("351"), K("b")>>, <<[t |-> "none", x |-> ""]>>) }

(* A path with an entry on the way to it is not for a file to have; nor is a
   standalone name within a region or an unnamed empty region. *)
Proper(l) == /\ l.kind = "entry" /\ s.in => \A x \in s.region : ~(x.path # l.path /\ S!IsPrefix(x.path, l.path))
             /\ l.kind = "name" => ~s.in
             /\ l.kind = "rule" /\ s.in => s.region # {}
Add(l) == Len(ops) < Depth /\ Proper(l) /\ ops' = Append(ops, l) /\ s' = S!Apply(s, l)
Show == /\ Len(ops) = Depth /\ ~s.in
        /\ PrintT(<<"BEHAVIOUR", ToJson(ops)>>)
        /\ ops' = Append(ops, Kind("end")) /\ UNCHANGED s
Next == (\E l \in Lines : Add(l)) \/ Show
Spec == Init /\ [][Next]_vars

NoneBelow == \A x, y \in s.tree : x # y => ~S!IsPrefix(x.path, y.path)
InRegion == s.region # {} => s.in
=============================================================================
