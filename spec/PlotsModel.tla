----------------------------- MODULE PlotsModel -----------------------------
(***************************************************************************)
(* Small sets of records with three parameters. Of the operators by which  *)
(* figures are judged it is demanded that correlation never exceeds one,   *)
(* that "weaker" orders all pairs, that a rounded coefficient is accepted  *)
(* and its opposite isn't, that a perfect line is accepted, and that each  *)
(* record is in just one line of points. The records are printed for       *)
(* replay.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, Vals, Thirds

P == INSTANCE Plots

VARIABLES recs, shown
vars == <<recs, shown>>
Init == recs = <<>> /\ shown = FALSE
Labels == <<"pop", "old", "never">>
Fit(k) == IF k = 1 THEN 2 ELSE IF k = 2 THEN 6 ELSE 14
Add == /\ Len(recs) < N
       /\ \E a \in Vals, b \in Vals, c \in Thirds :
            recs' = Append(recs, [s |-> Fit(Len(recs) + 1), v |-> <<a, b, c>>, l |-> Labels[((Len(recs) + a) % 3) + 1]])
       /\ UNCHANGED shown
Varied(j) == \E i, k \in 1..Len(recs) : recs[i].v[j] # recs[k].v[j]
Full == Len(recs) = N /\ Varied(1) /\ Varied(2) /\ Varied(3)
Show == /\ ~shown /\ Full
        /\ PrintT(<<"BEHAVIOUR", ToJson(recs)>>)
        /\ shown' = TRUE /\ UNCHANGED recs
Next == Add \/ Show
Spec == Init /\ [][Next]_vars

Cfg == [order |-> <<1, 2, 3>>, recs |-> recs]
All == P!Pairs(Cfg, 0)
AtMostOne == Full => \A p \in All :
    P!Sq(P!Cov(recs, p[1], p[2])) <= P!Cov(recs, p[1], p[1]) * P!Cov(recs, p[2], p[2])
Total == Full => \A p, q \in All : P!Weaker(recs, p, q) \/ P!Weaker(recs, q, p)
Transitive == Full => \A p, q, r \in All : (P!Weaker(recs, p, q) /\ P!Weaker(recs, q, r)) => P!Weaker(recs, p, r)
OneOf == Full => \A p \in All : \E r \in -100..100 : P!RightR(recs, p[1], p[2], r)
Sign == Full => \A p \in All : \A r \in 2..100 :
    P!RightR(recs, p[1], p[2], r) => ~P!RightR(recs, p[1], p[2], -r)
(* If the values are on a line, that line is the one to be fitted. *)
Perfect == Full => \A p \in All, m \in -2..2, b \in -2..4 :
    (/\ P!Judged(recs, p[1]) /\ \A k \in 1..N : recs[k].v[p[2]] = m * recs[k].v[p[1]] + b)
        => /\ P!RightLine(recs, p[1], p[2], 1000*m, 1000*b)
           /\ ~P!RightLine(recs, p[1], p[2], 1000*m + 100, 1000*b)
           /\ ~P!RightLine(recs, p[1], p[2], 1000*m, 1000*b + 100)
Once == Full => \A j \in 1..3 :
    Len(recs) = Len(P!Points(Cfg, [ratio |-> 2000], j, "pop")) + Len(P!Points(Cfg, [ratio |-> 2000], j, "old"))
                + Len(P!Points(Cfg, [ratio |-> 2000], j, "never"))
=============================================================================
