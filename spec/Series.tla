-------------------------------- MODULE Series --------------------------------
(***************************************************************************)
(* Loading of time series: the rows of a file, except for comments and     *)
(* those filtered out, in order of time, ones of the same time in order of *)
(* the file. Of those, only the ones in the ranges defined, if any, are    *)
(* selected. Times are relative to the earliest row's.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

When(cond, name) == IF cond THEN {name} ELSE {}
Open == -1

(* Configuration c: rows, of [note, keep, t, x]; ranges, of <<first, end>>, *)
(* the end being -1 for "all the rest".                                     *)
InitState(c) == [c |-> c]
Apply(s, e) == s

Kept(c) == SelectSeq(c.rows, LAMBDA r : ~r.note /\ r.keep)
Before(R, k) == Cardinality({j \in 1..Len(R) : R[j].t < R[k].t \/ (R[j].t = R[k].t /\ j < k)})
Sorted(R) == [n \in 1..Len(R) |-> R[CHOOSE k \in 1..Len(R) : Before(R, k) = n - 1]]
In(c, n) == c.ranges = <<>> \/ \E k \in 1..Len(c.ranges) :
               /\ n - 1 >= c.ranges[k][1] /\ (c.ranges[k][2] = Open \/ n - 1 < c.ranges[k][2])
RECURSIVE Pick(_, _, _)
Pick(c, S, n) == IF n > Len(S) THEN <<>>
                 ELSE (IF In(c, n) THEN <<[t |-> S[n].t - S[1].t, x |-> S[n].x]>> ELSE <<>>) \o Pick(c, S, n+1)
Expected(c) == Pick(c, Sorted(Kept(c)), 1)

BadLoad(c, e) ==
    LET X == Expected(c)
    IN IF e.failed THEN {"C37:Fails"}
       ELSE IF Len(e.t) # Len(X) \/ Len(e.x) # Len(X) THEN {"C37:Rows"}
       ELSE When(\E k \in 1..Len(X) : e.t[k] # X[k].t, "C37:Times")
            \cup When(\E k \in 1..Len(X) : e.x[k] # X[k].x, "C37:Values")
            \cup When(e.weights # Len(X), "C37:Weights")

Bad(s, e) ==
    CASE e.op = "load" -> BadLoad(s.c, e)
      [] e.op = "exc"  -> {"C37:Raises"}
      [] e.op = "hang" -> {"C37:Hangs"}
      [] OTHER -> {}
=============================================================================
