----------------------------- MODULE GenAsync -----------------------------
(***************************************************************************)
(* Behaviours of Async for replay on the implementation: which members     *)
(* each challenge uses, and in which order and with what outcome the       *)
(* evaluations finish.  Only the scheduling freedom that a user's          *)
(* evaluation function has is left open: challenges are issued and granted *)
(* as soon as possible.                                                    *)
(***************************************************************************)
EXTENDS Async, TLC, Json

VARIABLE hist

GenInit == Init /\ hist = <<>>

CanGrant == \E t \in T : phase[t] = "waiting" /\ Heads(queue, t)

GenNext ==
    \/ /\ issued < Np /\ ~CanGrant
       /\ Issue
       /\ hist' = hist
    \/ /\ \E t \in T : Grant(t)
       /\ hist' = hist
    \/ /\ issued = Np /\ ~CanGrant
       /\ \E t \in T : Finish(t) /\ hist' = Append(hist, <<t, dec'[t]>>)
       /\ (\A t \in T : phase'[t] = "done") =>
            PrintT(<<"BEHAVIOUR", ToJson([need |-> [t \in T |-> need[t] \ {t}], fin |-> hist'])>>)

GenSpec == GenInit /\ [][GenNext]_<<vars, hist>>
=============================================================================
