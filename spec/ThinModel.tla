------------------------------ MODULE ThinModel ------------------------------
(***************************************************************************)
(* A history that gives up, when full, the first of the closest pair of    *)
(* non-members, found by going through all pairs. What it does is accepted *)
(* by Thin. Of records that are equal one goes before any other does; a    *)
(* finder that forgets the fitness of the two, or the spread of each       *)
(* column, is found out.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, NMax, Values, NoFitness, NoSpread

T == INSTANCE Thin

VARIABLES recs, s, seen, ops
vars == <<recs, s, seen, ops>>

Who == {[s |-> a, v |-> <<b>>] : a \in Values, b \in Values}
Cfg == [nmax |-> NMax, nd |-> 1]
Init == recs = <<>> /\ s = T!InitState(Cfg) /\ seen = {} /\ ops = <<>>

Labelled(i, l) == [s |-> i.s, v |-> i.v, l |-> l]
Without(S, k) == SubSeq(S, 1, k-1) \o SubSeq(S, k+1, Len(S))
Others == {k \in 1..Len(recs) : recs[k].l # "pop"}
(* The pair k1 < k2 least far apart, the first of several. *)
V == IF NoSpread THEN [j \in 0..1 |-> 1] ELSE T!Spread(T!Rest(recs), 1)
Far(a, b) == T!Apart(V, recs[a], recs[b], 1)
Weight(a, b) == IF NoFitness THEN 1 ELSE recs[a].s + recs[b].s
Pairs == {p \in Others \X Others : p[1] < p[2]}
Closer(p, q) == LET x == Far(p[1], p[2]) * Weight(q[1], q[2])  y == Far(q[1], q[2]) * Weight(p[1], p[2])
                IN x < y \/ (x = y /\ (p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])))
Goes == IF Cardinality(Others) = 1 THEN CHOOSE k \in Others : TRUE
        ELSE (CHOOSE p \in Pairs : \A q \in Pairs : Closer(p, q))[1]

Do(o) == Len(ops) < Depth /\ ops' = Append(ops, o)
Step(op, r, new) ==
    LET a == IF op = "add" THEN T!Apply(s, [op |-> "add", s |-> r.s, v |-> r.v, l |-> r.l]) ELSE s
        e == [op |-> "seen", recs |-> new]
    IN recs' = new /\ seen' = T!Bad(a, e) /\ s' = T!Apply(a, e)
Add(i, l) ==
    /\ Do(<<"addx", <<i.s, i.v[1], l>>>>)
    /\ LET r == Labelled(i, l) IN Step("add", r,
         IF Len(recs) < NMax THEN Append(recs, r)
         ELSE IF Others = {} THEN recs ELSE Append(Without(recs, Goes), r))
Drop(k) ==
    /\ recs[k].l = "pop"
    /\ Do(<<"dropx", <<recs[k].s, recs[k].v[1], "former">>>>)
    /\ Step("drop", recs[k], [recs EXCEPT ![k].l = "former"])
Show == /\ Len(ops) = Depth
        /\ PrintT(<<"BEHAVIOUR", ToJson(ops)>>)
        /\ ops' = Append(ops, <<"end", <<0, 0, "">>>>) /\ UNCHANGED <<recs, s, seen>>
Next == \/ \E i \in Who, l \in {"pop", "never"} : Add(i, l)
        \/ \E k \in 1..Len(recs) : Drop(k)
        \/ Show
Spec == Init /\ [][Next]_vars

Accepted == seen = {}
Bounded == Len(recs) <= NMax
(* If there are twins, only twins are expendable. *)
Twins == LET R == T!Rest(recs)
             twin == {r \in T!Range(R) : Cardinality({k \in 1..Len(R) : T!Plain(R[k]) = T!Plain(r)}) > 1}
         IN twin # {} => T!Expendable(R, 1) \subseteq twin
Some == T!Rest(recs) # <<>> => T!Expendable(T!Rest(recs), 1) # {}
=============================================================================
