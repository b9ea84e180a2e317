------------------------------ MODULE AbortModel ------------------------------
(***************************************************************************)
(* Sequences of uses of the abort facility, with what Abort.tla says is    *)
(* called. Checks that nothing is called twice or forgotten; prints each   *)
(* sequence for replay.                                                    *)
(***************************************************************************)
EXTENDS Abort, Json

CONSTANT Depth
VARIABLES st, ops, calls
vars == <<st, ops, calls>>

Init == st = InitState([fresh |-> FALSE]) /\ ops = <<>> /\ calls = <<>>

N == Cardinality({k \in 1..Len(ops) : ops[k][1] = "reg"})
Step(op, act, called) ==
    /\ Len(ops) < Depth
    /\ ops' = Append(ops, <<op, act>>)
    /\ st' = Apply(st, [op |-> op, h |-> N + 1, act |-> act, called |-> called])
    /\ calls' = calls \o called

Next == \/ \E act \in {"none", "reg", "key", "now"} : Step("reg", act, <<>>)
        \/ Step("key", "", Dispatch(st))
        \/ Step("now", "", <<>>)
        \/ Step("turn", "", TurnCalls(st))
        \/ Step("ignore", "", <<>>)
        \/ Step("shutdown", "", <<>>)
        \/ Step("stop", "", <<>>)
        \/ st.pend = 0 /\ st.later = <<>> /\ Step("restart", "", <<>>)
        \/ /\ Len(ops) = Depth
           /\ PrintT(<<"BEHAVIOUR", ToJson(ops)>>)
           /\ ops' = Append(ops, <<"end", "">>) /\ UNCHANGED <<st, calls>>
Spec == Init /\ [][Next]_vars

Once == Cardinality(Range(calls)) = Len(calls)
NoneWaiting == st.aborted => st.queue = <<>>
IgnoredIsSilent == st.ignored /\ ~st.aborted => st.later = <<>>
=============================================================================
