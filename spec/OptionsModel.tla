---------------------------- MODULE OptionsModel ----------------------------
(***************************************************************************)
(* Command lines for a few options, and accesses. An option that is not    *)
(* given has its default, the last one given wins, and nothing changes     *)
(* once the line has been parsed. Each sequence is printed for replay.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Items

O == INSTANCE Options

VARIABLES s, items, ops, was
vars == <<s, items, ops, was>>
Cfg == [opts |-> <<[t |-> "int", d |-> "7"], [t |-> "flag", d |-> ""], [t |-> "str", d |-> "abc"]>>, rest |-> TRUE]
Int3 == [o |-> 1, v |-> "3", is |-> <<"int", "float", "str">>]
IntX == [o |-> 1, v |-> "x", is |-> <<"str">>]
Flag == [o |-> 2, v |-> "", is |-> <<>>]
StrA == [o |-> 3, v |-> "a", is |-> <<"str">>]
StrB == [o |-> 3, v |-> "b", is |-> <<"str">>]
Pos  == [o |-> 0, v |-> "p", is |-> <<"str">>]
Pick == {Int3, IntX, Flag, StrA, StrB, Pos}
Init == s = O!InitState(Cfg) /\ items = <<>> /\ ops = <<>> /\ was = <<>>

(* All other arguments are next to each other. *)
Fine(L) == \A i, k \in 1..Len(L) : (L[i].o = 0 /\ L[k].o = 0) => \A j \in i..k : L[j].o = 0
Step(e) == /\ s' = O!Apply(s, e) /\ ops' = Append(ops, e) /\ UNCHANGED items
           /\ was' = IF s'.parsed /\ ~s.parsed THEN [o \in 1..3 |-> O!Value(Cfg, s'.fixed, o)] ELSE was
More == /\ Len(ops) < Depth /\ Len(items) < Items
        /\ \E x \in Pick : Fine(Append(items, x)) /\ items' = Append(items, x)
        /\ UNCHANGED <<s, ops, was>>
Line == Len(ops) < Depth /\ Step([op |-> "line", line |-> items])
Get == Len(ops) < Depth /\ ops # <<>> /\ \E o \in 1..3 : Step([op |-> "get", o |-> o])
Seq1 == Len(ops) < Depth /\ ops # <<>> /\ Step([op |-> "seq"])
Show == /\ Len(ops) = Depth /\ PrintT(<<"BEHAVIOUR", ToJson(ops)>>)
        /\ ops' = Append(ops, [op |-> "end"]) /\ UNCHANGED <<s, items, was>>
Next == More \/ Line \/ Get \/ Seq1 \/ Show
Spec == Init /\ [][Next]_vars

Fixed == s.parsed => was = [o \in 1..3 |-> O!Value(Cfg, s.fixed, o)]
NeverWrong == s.parsed => ~O!Wrong(Cfg, s.fixed)
Defaults == s.parsed => \A o \in {1, 3} :
    (\A k \in 1..Len(s.fixed) : s.fixed[k].o # o) => O!Value(Cfg, s.fixed, o).v = Cfg.opts[o].d
=============================================================================
