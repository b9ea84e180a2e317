------------------------------ MODULE IndivModel ------------------------------
(***************************************************************************)
(* Individuals that refer to arrays of values. Copies and results have     *)
(* arrays of their own; ones that shared them (Share) are not accepted.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Share
S == INSTANCE Indiv
Names == <<"p", "q">>

VARIABLES s, arrays, inds, ok, ops
vars == <<s, arrays, inds, ok, ops>>

F(k, x) == [k |-> k, x |-> x]
Fits == {F("num", 0), F("num", 64), F("num", -64), F("nan", 0)}
Init == /\ s = S!Apply(S!InitState([names |-> Names, lo |-> <<0, 0>>, hi |-> <<128, 256>>]), [op |-> "make", how |-> "new", v |-> <<64, 0>>])
        /\ arrays = << <<64, 0>> >> /\ inds = <<[r |-> 1, f |-> S!NoFit]>>
        /\ ok = TRUE /\ ops = <<[op |-> "make", how |-> "new", v |-> <<64, 0>>]>>

More == Len(ops) < Depth
N == Len(inds)
Do(e) == s' = S!Apply(s, e) /\ ok' = (S!Bad(s, e) = {}) /\ ops' = Append(ops, e)

Add(v, f) == arrays' = Append(arrays, v) /\ inds' = Append(inds, [r |-> Len(arrays)+1, f |-> f])
V(a) == arrays[inds[a].r]
Make(how) == [op |-> "make", how |-> how, refused |-> FALSE]
New == N < 3 /\ Do(Make("new") @@ [v |-> <<64, 0>>]) /\ Add(<<64, 0>>, S!NoFit)
Copy == /\ N < 3
        /\ \E a \in 1..N :
              /\ Do(Make("copy") @@ [a |-> a])
              /\ IF Share THEN inds' = Append(inds, inds[a]) /\ UNCHANGED arrays ELSE Add(V(a), inds[a].f)
Sum == /\ N < 3
       /\ \E a, b \in 1..N :
             Do(Make("add") @@ [a |-> a, b |-> b]) /\ Add([k \in 1..2 |-> V(a)[k] + V(b)[k]], S!NoFit)
Times == /\ N < 3
         /\ \E a \in 1..N : Do(Make("mul") @@ [a |-> a, f |-> -2]) /\ Add([k \in 1..2 |-> -V(a)[k]], S!NoFit)
Score == \E a \in 1..N, f \in Fits :
            /\ Do([op |-> "score", a |-> a, f |-> f])
            /\ inds' = [inds EXCEPT ![a].f = f] /\ UNCHANGED arrays
Item == \E a \in 1..N :
            /\ Do([op |-> "item", a |-> a, k |-> 1, x |-> 32])
            /\ arrays' = [arrays EXCEPT ![inds[a].r][1] = 32] /\ UNCHANGED inds
Compare == \E a, b \in 1..N :
            /\ LET fa == S!Fit(inds[a].f)
                   fb == S!Fit(inds[b].f)
                   same == fa = fb /\ V(a) = V(b)
               IN Do([op |-> "compare", a |-> a, b |-> b, lt |-> fa < fb, gt |-> fa > fb, eq |-> same,
                      ne |-> ~same, equals |-> V(a) = V(b), sameHash |-> same])
            /\ UNCHANGED <<arrays, inds>>
Show == /\ Len(ops) = Depth
        /\ PrintT(<<"BEHAVIOUR", ToJson(ops)>>)
        /\ ops' = Append(ops, [op |-> "end"]) /\ UNCHANGED <<s, arrays, inds, ok>>
Next == (More /\ (New \/ Copy \/ Sum \/ Times \/ Score \/ Item \/ Compare)) \/ Show
Spec == Init /\ [][Next]_vars
Accepted == ok
Faithful == Len(s.all) = N /\ \A a \in 1..N : s.all[a].v = V(a) /\ S!Fit(s.all[a].f) = S!Fit(inds[a].f)
=============================================================================
