--------------------------- MODULE SettingsModel ---------------------------
(***************************************************************************)
(* All combinations of settings given and of a subclass, for two at a      *)
(* time. A setting given always counts, one setting never affects another, *)
(* and without any, everything is as documented. The number of members     *)
(* never is below the least, and above the most only if that is below the  *)
(* least. Each combination is printed for replay.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

S == INSTANCE Settings

VARIABLES kw, cls, shown
vars == <<kw, cls, shown>>

Values(n) == CASE n = "CR" -> {"0", "1", "0.5"}
               [] n = "F" -> {"0.7", "0.2 0.4", "0.5"}
               [] n \in {"maxiter", "dwellByGrave"} -> {"0", "1", "7"}
               [] n = "goalSSE" -> {"0", "2.5"}
               [] n = "randomBase" -> {"False", "True", "0.5"}
               [] OTHER -> {"False", "True"}
Some(n) == {<<>>} \cup {<<[n |-> n, v |-> v]>> : v \in Values(n) \cup {"None"}}
Init == /\ \E m, n \in S!Names : \E a \in Some(m), b \in Some(n), c \in Some(m) :
               /\ kw = IF m = n THEN a ELSE a \o b
               /\ cls = c
        \* None given explicitly where a subclass has a setting is left open
        /\ \A k \in 1..Len(kw) : kw[k].v = "None" => \A j \in 1..Len(cls) : cls[j].n # kw[k].n
        /\ shown = FALSE
Show == /\ ~shown /\ PrintT(<<"BEHAVIOUR", ToJson([kw |-> kw, cls |-> cls])>>)
        /\ shown' = TRUE /\ UNCHANGED <<kw, cls>>
Spec == Init /\ [][Show]_vars

Counts == \A n \in S!Names : S!Given(kw, n) => S!Setting(kw, cls, n) = S!Value(kw, n)
Alone == \A n \in S!Names : (~S!Given(kw, n) /\ ~S!Given(cls, n)) => S!Setting(kw, cls, n) = S!Documented[n]
Mine == \A n \in S!Names : (~S!Given(kw, n) /\ S!Given(cls, n)) => S!Setting(kw, cls, n) = S!Value(cls, n)
Sizes == \A nd \in 1..6, size \in {0, 1, 3, 100}, lo \in {0, 2, 30}, hi \in {0, 10, 40} :
    LET e == [nd |-> nd, popsize |-> size, npmin |-> lo, npmax |-> hi]
        least == S!Or(lo, 20) most == S!Or(hi, 500)
    IN /\ S!Members(e) >= least
       /\ (least <= most => S!Members(e) <= most)
       /\ ((S!Or(size, 10) * nd) \in least..most => S!Members(e) = S!Or(size, 10) * nd)
=============================================================================
