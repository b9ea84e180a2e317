------------------------------- MODULE Extract -------------------------------
(***************************************************************************)
(* Extracting the packaged examples. The package and the user's directory  *)
(* are sets of [n, c]: a name and what is there, a number that stands for  *)
(* a file's content or a link's target. Events: put, remove, wipe (the     *)
(* whole directory), package (what is now packaged), extract (with all     *)
(* there is afterwards, in the directory and elsewhere).                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

When(cond, name) == IF cond THEN {name} ELSE {}
Range(S) == {S[k] : k \in 1..Len(S)}

InitState(c) == [pkg |-> Range(c.pkg), also |-> Range(c.also), user |-> {}, there |-> c.there, else |-> Range(c.else)]

Names(S) == {x.n : x \in S}
Missing(s) == {x \in s.pkg : x.n \notin Names(s.user)}

Apply(s, e) ==
    CASE e.op = "put"    -> [s EXCEPT !.user = {x \in @ : x.n # e.n} \cup {[n |-> e.n, c |-> e.c]}, !.there = TRUE]
      [] e.op = "remove" -> [s EXCEPT !.user = {x \in @ : x.n # e.n}]
      [] e.op = "wipe"   -> [s EXCEPT !.user = {}, !.there = FALSE]
      [] e.op = "package" -> [s EXCEPT !.pkg = Range(e.pkg), !.also = Range(e.also)]
      [] e.op = "elsewhere" -> [s EXCEPT !.else = Range(e.else)]
      [] e.op = "extract" -> [s EXCEPT !.user = Range(e.user), !.there = TRUE]
      [] OTHER -> s

(* Packaged files that are not examples (also) may be extracted or not *)
Bad(s, e) ==
    CASE e.op = "extract" ->
            LET U == Range(e.user)
            IN When(\E x \in s.user : x \notin U, "C28:Touched")
               \cup When(\E x \in Missing(s) : x.n \notin Names(U), "C28:Missing")
               \cup When(\E x \in Missing(s) : x.n \in Names(U) /\ x \notin U, "C28:NotIdentical")
               \cup When(\E x \in U : x.n \notin Names(s.user \cup s.pkg) /\ x \notin s.also, "C28:Extra")
               \cup When(Range(e.else) # s.else, "C28:Elsewhere")
               \cup When(~e.intact, "C28:Package")
      [] e.op = "exc"  -> {"C28:Raises"}
      [] e.op = "hang" -> {"C28:Hangs"}
      [] OTHER -> {}
=============================================================================
