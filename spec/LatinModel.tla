----------------------------- MODULE LatinModel -----------------------------
(***************************************************************************)
(* Candidates taken row by row from a matrix with a permutation of the     *)
(* slices in each column, a new one made when all rows have been taken. A  *)
(* machine that leaves out the last row (SkipLast), or goes on with fewer  *)
(* rows than there are slices (Short), is not accepted. When a batch is    *)
(* complete every slice has been taken.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Depth, N, SkipLast, Short

L == INSTANCE Latin

VARIABLES iv, k, n, s, bad, cover
vars == <<iv, k, n, s, bad, cover>>

Perms == {f \in [1..N -> 0..N-1] : \A a, b \in 1..N : a # b => f[a] # f[b]}
Rows == IF Short THEN N-1 ELSE N
Init == /\ iv \in Perms \X Perms /\ k = 1 /\ n = 0 /\ bad = {} /\ cover = {}
        /\ s = L!Apply(L!InitState([np |-> N, nd |-> 2]), [op |-> "setup", latin |-> TRUE])
Take(m, row) ==
    LET e == [op |-> "draw", cell |-> <<m[1][row], m[2][row]>>]
    IN /\ s' = L!Apply(s, e) /\ bad' = L!Bad(s, e) /\ n' = n + 1 /\ k' = row + 1
       /\ cover' = (IF n % N = 0 THEN {} ELSE cover) \cup {m[1][row]}
Draw == /\ n < Depth
        /\ IF (SkipLast /\ k = N) \/ k > Rows
           THEN \E m \in Perms \X Perms : iv' = m /\ Take(m, 1)
           ELSE Take(iv, k) /\ UNCHANGED iv
Next == Draw
Spec == Init /\ [][Next]_vars

Accepted == bad = {}
Covers == n > 0 /\ n % N = 0 => cover = 0..N-1
=============================================================================
