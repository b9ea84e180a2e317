----------------------------- MODULE RecipeModel -----------------------------
(***************************************************************************)
(* How challengers are made, step by step: a donor from a base and two     *)
(* others, some of its parameters given back to those of the target, what  *)
(* is out of bounds reflected, and clipped if still out. The vectors that  *)
(* this can give are exactly those that Run accepts. With Loose the donor  *)
(* may give back all of its parameters, with Clip nothing is reflected,    *)
(* and with Repeat the two others may be one; those are not accepted. Each *)
(* population is printed for replay.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Firsts, Seconds, Loose, Clip, Repeat
R == INSTANCE Run

Lo == <<0, 1>>
Hi == <<3, 4>>
VARIABLES pop, f, cr, done
vars == <<pop, f, cr, done>>

Vectors == { <<x, y>> : x \in Firsts, y \in Seconds }
Init == /\ pop \in [1..4 -> Vectors] /\ f \in {1, 2} /\ cr \in {0, 50, 100} /\ done = FALSE

Conf == [np |-> 4, nd |-> 2, lo |-> Lo, hi |-> Hi, cr |-> cr, fnum |-> f, fden |-> 1, base |-> 100,
         sync |-> "async", maxgen |-> 1, xsse |-> FALSE, cons |-> <<>>, plan |-> <<>>,
         pop |-> [k \in 1..4 |-> [v |-> pop[k], s |-> 100 + k]]]

Down(x, d) == IF x > Hi[d] THEN (IF Clip THEN Hi[d] ELSE 2*Hi[d] - x) ELSE x
Up(x, d) == IF x < Lo[d] THEN (IF Clip THEN Lo[d] ELSE 2*Lo[d] - x) ELSE x
Inside(x, d) == LET y == Down(Up(x, d), d) IN IF y < Lo[d] THEN Lo[d] ELSE IF y > Hi[d] THEN Hi[d] ELSE y

Keeps == { M \in SUBSET {1, 2} :
             /\ Loose \/ M # {}
             /\ cr = 0 => Cardinality(M) <= 1
             /\ cr = 100 => M = {1, 2} }
Made(t, b, x, y, M) ==
    [d \in {1, 2} |-> Inside(IF d \in M THEN pop[b][d] + f * (pop[x][d] - pop[y][d]) ELSE pop[t][d], d)]
Possible(t) ==
    { Made(t, p[1], p[2], p[3], M) :
        p \in { q \in ((1..4) \ {t}) \X ((1..4) \ {t}) \X ((1..4) \ {t}) :
                  q[1] # q[2] /\ q[1] # q[3] /\ (Repeat \/ q[2] # q[3]) },
        M \in Keeps }

Every == { <<x, y>> : x \in -1..4, y \in 0..5 }
State == R!InitState(Conf)
(* For the first and the last member; nothing has been decided, so the last
   has to wait for the others. *)
Exact == done \/ { v \in Every : R!Explained(State, 1, v) } = Possible(1)
Last == done \/ { v \in Every : R!Explained([State EXCEPT !.decided = {1, 2, 3}], 4, v) } = Possible(4)
Waits == done \/ \A v \in Every : ~R!Explained(State, 4, v)
Within == done \/ \A v \in Possible(1) : R!InBounds(Conf, v)

Show == /\ ~done /\ done' = TRUE /\ UNCHANGED <<pop, f, cr>>
        /\ PrintT(<<"BEHAVIOUR", ToJson([rows |-> pop, f |-> f, cr |-> cr, lo |-> Lo, hi |-> Hi])>>)
Next == Show
Spec == Init /\ [][Next]_vars
=============================================================================
