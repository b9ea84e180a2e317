---------------------------- MODULE ConstrainModel ----------------------------
(***************************************************************************)
(* A constraint object whose iteration makes wrappers, each of which keeps *)
(* its own copy of what it was made for. Wrappers that look those things   *)
(* up in the iteration when called (Late) are not accepted.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Late
S == INSTANCE Constrain

VARIABLES s, reg, appended, wraps, frame, ok, ops
vars == <<s, reg, appended, wraps, frame, ok, ops>>

R(f, lin, log) == [f |-> f, lin |-> lin, log |-> log]
Regs == { <<>>, <<R("p", <<"a">>, <<>>)>>, <<R("p", <<"a">>, <<"c">>), R("q", <<"b">>, <<>>)>>,
          <<R("p", <<>>, <<"c">>), R("q", <<"a", "b">>, <<>>), R("r", <<>>, <<>>)>> }
P(n, v) == [n |-> n, v |-> v]
Givens == { <<P("a", 1), P("b", 2), P("c", 1)>>, <<P("a", 3), P("c", -1)>>, <<P("b", 2), P("d", 0)>> }

Init == \E r \in Regs :
    /\ s = S!Apply(S!InitState(0), [op |-> "new", reg |-> r])
    /\ reg = r /\ appended = <<>> /\ wraps = <<>> /\ frame = <<>> /\ ok = TRUE
    /\ ops = <<[op |-> "new", reg |-> r]>>

Do(e) == ops' = Append(ops, e) /\ s' = S!Apply(s, e) /\ ok' = (S!Bad(s, e) = {})

More == Len(ops) < Depth
Append_ == /\ More /\ Len(appended) < 2
           /\ LET f == <<"x", "y">>[Len(appended)+1]
              IN appended' = Append(appended, f) /\ Do([op |-> "append", obj |-> 1, f |-> f])
           /\ UNCHANGED <<reg, wraps, frame>>
Take == /\ More /\ Len(wraps) < 2
        /\ wraps' = Append(wraps, [k \in 1..Len(reg) |-> <<"own", reg[k]>>] \o [k \in 1..Len(appended) |-> <<"raw", R(appended[k], <<>>, <<>>)>>])
        /\ frame' = Append(frame, IF reg = <<>> THEN R("none", <<>>, <<>>) ELSE reg[Len(reg)])
        /\ Do([op |-> "take", obj |-> 1, n |-> Len(reg) + Len(appended)])
        /\ UNCHANGED <<reg, appended>>
V(G, n) == LET g == CHOOSE x \in S!Range(G) : x.n = n IN g.v
Check == /\ More
         /\ \E t \in 1..Len(wraps) : \E k \in 1..Len(wraps[t]) : \E G \in Givens :
             LET own == wraps[t][k][1] = "own"
                 w == IF own /\ Late THEN [frame[t] EXCEPT !.f = wraps[t][k][2].f] ELSE wraps[t][k][2]
                 there == {g.n : g \in S!Range(G)}
                 miss == own /\ ~((S!Range(w.lin) \cup S!Range(w.log)) \subseteq there)
                 params == IF own THEN [j \in 1..Len(w.lin) |-> [n |-> w.lin[j], v |-> V(G, w.lin[j]) * 100]]
                                       \o [j \in 1..Len(w.log) |-> [n |-> w.log[j], v |-> S!Pow(V(G, w.log[j]) + 2)]]
                           ELSE [j \in 1..Len(G) |-> [n |-> G[j].n, v |-> G[j].v * 100]]
             IN Do([op |-> "check", take |-> t, k |-> k, given |-> G, got |-> TRUE,
                    calls |-> IF miss THEN <<>> ELSE <<[f |-> w.f, params |-> params, ret |-> TRUE]>>])
         /\ UNCHANGED <<reg, appended, wraps, frame>>
Show == /\ Len(ops) = Depth
        /\ PrintT(<<"BEHAVIOUR", ToJson(ops)>>)
        /\ ops' = Append(ops, [op |-> "end"]) /\ UNCHANGED <<s, reg, appended, wraps, frame, ok>>
Next == Append_ \/ Take \/ Check \/ Show
Spec == Init /\ [][Next]_vars
Accepted == ok
=============================================================================
