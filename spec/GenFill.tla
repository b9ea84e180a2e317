------------------------------ MODULE GenFill ------------------------------
(* Behaviours of Fill for replay: which evaluation (by age among those in
   flight) finishes next, and how. *)
EXTENDS Fill, TLC, Json

VARIABLE hist
GenInit == Init /\ hist = <<>>

CanIssue == ~done /\ ~aborted /\ n < Np /\ Ready
Age(id) == Cardinality({x \in pend : x < id})

GenNext ==
    \/ Issue /\ hist' = hist
    \/ ~CanIssue /\ \E id \in pend, k \in Kinds :
          Result(id, k) /\ hist' = Append(hist, <<Age(id), k>>)
    \/ ~CanIssue /\ Abort /\ hist' = Append(hist, <<0, "abort">>)
    \/ ~CanIssue /\ Done /\ hist' = hist
       /\ PrintT(<<"BEHAVIOUR", ToJson([np |-> Np, par |-> Par, steps |-> hist])>>)

GenSpec == GenInit /\ [][GenNext]_<<vars, hist>>
=============================================================================
