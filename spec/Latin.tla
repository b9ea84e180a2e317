------------------------------- MODULE Latin -------------------------------
(***************************************************************************)
(* How the initial candidates of a population of np are spread. A batch of *)
(* np successive candidates takes, in each of the nd parameters, one from  *)
(* each of np equal slices of its range, whatever becomes of them. Slices  *)
(* are numbered from 0.                                                    *)
(*                                                                         *)
(* Events: setup (begins; latin: not merely uniform), draw (a candidate is *)
(* seen for the first time, in slice cell[d] of parameter d).              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

When(cond, name) == IF cond THEN {name} ELSE {}
InitState(c) == [c |-> c, latin |-> FALSE, batch |-> <<>>]

Taken(s, d) == {s.batch[k][d] : k \in 1..Len(s.batch)}
Apply(s, e) ==
    CASE e.op = "setup" -> [s EXCEPT !.latin = e.latin, !.batch = <<>>]
      [] e.op = "draw"  -> [s EXCEPT !.batch = IF Len(@) + 1 = s.c.np THEN <<>> ELSE Append(@, e.cell)]
      [] OTHER -> s
Bad(s, e) ==
    CASE e.op = "draw" ->
            When(s.latin /\ \E d \in 1..s.c.nd : e.cell[d] \in Taken(s, d), "C31:SliceTwice")
            \cup When(\E d \in 1..s.c.nd : e.cell[d] \notin 0..s.c.np-1, "C31:OutsideRange")
      [] e.op = "exc"  -> {"C31:Raises"}
      [] e.op = "hang" -> {"C31:Hangs"}
      [] OTHER -> {}
=============================================================================
