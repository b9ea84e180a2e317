-------------------------------- MODULE Fill --------------------------------
(***************************************************************************)
(* The design of population set-up: candidates are evaluated, up to Par at *)
(* a time, until Np of them have given a valid fitness.  The first Np      *)
(* candidates are evaluated in parallel, replacements for invalid ones one *)
(* at a time.  Results arrive in any order; an abort or a fatal result may *)
(* come at any point.                                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Np, Par,
          MaxBad,     \* how many invalid results there may be
          Abortable

VARIABLES pend,   \* evaluations in flight
          issued, \* evaluations begun
          n,      \* members
          bad,    \* invalid results so far
          solo,   \* the replacement being waited for, or 0
          aborted, done

vars == <<pend, issued, n, bad, solo, aborted, done>>

Init == /\ pend = {} /\ issued = 0 /\ n = 0 /\ bad = 0 /\ solo = 0
        /\ aborted = FALSE /\ done = FALSE

Ready == IF issued < Np THEN Cardinality(pend) < Par ELSE solo = 0 /\ Cardinality(pend) < Par

Issue == /\ ~done /\ ~aborted /\ n < Np /\ Ready
         /\ issued' = issued + 1
         /\ pend' = pend \cup {issued'}
         /\ solo' = IF issued' >= Np THEN issued' ELSE 0
         /\ UNCHANGED <<n, bad, aborted, done>>

Result(id, kind) ==
    /\ id \in pend
    /\ kind = "bad" => bad < MaxBad
    /\ kind = "fatal" => Abortable
    /\ pend' = pend \ {id}
    /\ solo' = IF solo = id THEN 0 ELSE solo
    /\ n' = IF kind = "good" /\ ~aborted /\ n < Np THEN n + 1 ELSE n
    /\ bad' = IF kind = "bad" THEN bad + 1 ELSE bad
    /\ aborted' = (aborted \/ kind = "fatal")
    /\ UNCHANGED <<issued, done>>

Abort == Abortable /\ ~aborted /\ ~done /\ aborted' = TRUE
         /\ UNCHANGED <<pend, issued, n, bad, solo, done>>

Done == /\ ~done /\ pend = {} /\ (aborted \/ n = Np)
        /\ done' = TRUE
        /\ UNCHANGED <<pend, issued, n, bad, solo, aborted>>

Kinds == {"good", "bad", "fatal"}
Next == Issue \/ Abort \/ Done \/ (\E id \in pend, k \in Kinds : Result(id, k))
        \/ (done /\ UNCHANGED vars)

Spec == Init /\ [][Next]_vars
        /\ WF_vars(Issue) /\ WF_vars(Done)
        /\ WF_vars(\E id \in pend, k \in Kinds : Result(id, k))

InFlight == Cardinality(pend) <= Par
(* Until as many were begun as there are to be members, they are as many at a
   time as allowed, unless the next one is just about to begin. *)
Busy == ~done /\ ~aborted /\ issued < Np /\ ~ENABLED Issue => Cardinality(pend) = Par
NeverTooMany == n <= Np
FullIfSuccess == done /\ ~aborted => n = Np
Nothing == done => pend = {}
Finishes == <>done
=============================================================================
