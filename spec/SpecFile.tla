------------------------------ MODULE SpecFile ------------------------------
(***************************************************************************)
(* Specification files. Events: line (what each line of the file says),    *)
(* loaded (all there is in the result), error, get (a lookup). A value is  *)
(* a sequence of tokens; a number is a mantissa and a power of ten as      *)
(* written, and in results millionths. The result is a set of pairs of a   *)
(* path of keys and a value.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

When(cond, name) == IF cond THEN {name} ELSE {}

InitState(c) == [tree |-> {}, region |-> {}, in |-> FALSE, name |-> "", error |-> FALSE]

RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 10 * Pow(n-1)
Token(x) == IF x.t = "num" THEN [t |-> "num", n |-> x.m * Pow(x.e + 6), x |-> ""]
            ELSE [t |-> x.t, n |-> 0, x |-> x.x]
Value(v) == [list |-> Len(v) > 1, of |-> [k \in 1..Len(v) |-> Token(v[k])]]

IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Put(S, path, v) == {x \in S : ~IsPrefix(path, x.path)} \cup {[path |-> path, v |-> v]}
Key(n) == [int |-> FALSE, k |-> n]
Under(n, S) == {[path |-> <<Key(n)>> \o x.path, v |-> x.v] : x \in S}

Line(s, e) ==
    CASE s.error -> s
      [] e.kind \in {"blank", "comment"} -> s
      [] e.kind = "rule" ->
            IF s.in THEN [s EXCEPT !.in = FALSE, !.name = "", !.region = {},
                                   !.tree = {x \in @ : ~IsPrefix(<<Key(s.name)>>, x.path)} \cup Under(s.name, s.region)]
            ELSE IF s.name # "" THEN [s EXCEPT !.in = TRUE]
            ELSE [s EXCEPT !.error = TRUE]
      [] e.kind = "name" -> [s EXCEPT !.name = e.name]
      [] e.kind = "entry" ->
            IF s.in THEN [s EXCEPT !.region = Put(@, e.path, Value(e.v))]
            ELSE IF Len(e.path) > 1 THEN [s EXCEPT !.error = TRUE]
            ELSE [s EXCEPT !.tree = Put(@, e.path, Value(e.v))]

Apply(s, e) == IF e.op = "line" THEN Line(s, e) ELSE s

Range(S) == {S[k] : k \in 1..Len(S)}
Below(s, path) == {x \in s.tree : IsPrefix(path, x.path)}
Found(s, path) == {[path |-> SubSeq(x.path, Len(path)+1, Len(x.path)), v |-> x.v] : x \in Below(s, path)}

Bad(s, e) ==
    CASE e.op = "loaded" ->
            IF s.error THEN {"C22:Accepted"}
            ELSE LET got == Range(e.all)
                 IN When({x.path : x \in got} # {x.path : x \in s.tree}, "C22:Entries")
                    \cup When(\E x \in got, y \in s.tree : x.path = y.path /\ x.v # y.v, "C22:Values")
                    \cup When({x.path[1] : x \in s.tree} # Range(e.attrs), "C22:Attributes")
      [] e.op = "error" -> When(~s.error, "C22:Rejected") \cup When(~e.proper, "C22:ErrorKind")
      [] e.op = "get" -> IF s.error THEN {} ELSE When(Range(e.all) # Found(s, e.path), "C22:Lookup")
      [] e.op = "missing" -> When(~e.refused, "C22:MissingFile")
      [] e.op = "exc"  -> {"C22:Raises"}
      [] e.op = "hang" -> {"C22:Hangs"}
      [] OTHER -> {}
=============================================================================
