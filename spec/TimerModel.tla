------------------------------ MODULE TimerModel ------------------------------
(***************************************************************************)
(* A timer that keeps total times and counts, and sorts the parts when an  *)
(* iteration starts. One that looked at its totals again while iterating   *)
(* (Live) is not accepted.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Live, Ids
S == INSTANCE Timer

VARIABLES s, t, open, order, ok, ops
vars == <<s, t, open, order, ok, ops>>
Init == s = S!InitState(0) /\ t = 0 /\ open = {} /\ order = <<>> /\ ok = TRUE /\ ops = <<>>

Do(e) == s' = S!Apply(s, e) /\ ok' = (S!Bad(s, e) = {}) /\ ops' = Append(ops, e)
More == Len(ops) < Depth
Call == /\ More /\ Cardinality(open) < 2
        /\ \E id \in Ids : Do([op |-> "call", id |-> id, t |-> t, ok |-> TRUE])
        /\ open' = open \cup {Len(s.calls)+1} /\ UNCHANGED <<t, order>>
Done == /\ More
        /\ \E c \in open, d \in 0..2 :
              /\ t' = t + d
              /\ Do([op |-> "done", call |-> c, t |-> t + d, same |-> TRUE])
              /\ open' = open \ {c}
        /\ UNCHANGED order
Sorted == CHOOSE f \in [1..Cardinality(S!Timed(s)) -> S!Timed(s)] :
              \A a, b \in DOMAIN f : a < b => f[a] # f[b] /\ ~S!Faster(s, f[b], f[a])
Start == /\ More /\ order = <<>> /\ S!Timed(s) # {} /\ Len(s.its) < 2
         /\ Do([op |-> "start"]) /\ order' = Sorted /\ UNCHANGED <<t, open>>
Pick == IF Live THEN CHOOSE a \in {order[k] : k \in 1..Len(order)} :
                        \A k \in 1..Len(order) : ~S!Faster(s, order[k], a)
        ELSE order[1]
Next_ == /\ More /\ order # <<>>
         /\ Do([op |-> "next", it |-> Len(s.its), id |-> Pick])
         /\ order' = SelectSeq(order, LAMBDA x : x # Pick) /\ UNCHANGED <<t, open>>
Show == /\ Len(ops) = Depth
        /\ PrintT(<<"BEHAVIOUR", ToJson(ops)>>)
        /\ ops' = Append(ops, [op |-> "end"]) /\ UNCHANGED <<s, t, open, order, ok>>
Next == Call \/ Done \/ Start \/ Next_ \/ Show
Spec == Init /\ [][Next]_vars
Accepted == ok
=============================================================================
