---------------------------- MODULE ReadableModel ----------------------------
(***************************************************************************)
(* Every value between, and just beyond, bounds of several widths. Stars   *)
(* are the mirror image of each other, never both, and as a value goes up  *)
(* its star goes from one to none to two. Each case is printed for replay. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Widths, Lows

R == INSTANCE Readable

VARIABLES lo, hi, v, shown
vars == <<lo, hi, v, shown>>
Init == /\ lo \in Lows /\ hi \in {lo + w : w \in Widths} /\ v = lo /\ shown = FALSE
Show == /\ ~shown /\ PrintT(<<"BEHAVIOUR", ToJson(<<lo, hi, v>>)>>) /\ shown' = TRUE /\ UNCHANGED <<lo, hi, v>>
Up == shown /\ v < hi /\ v' = v + 1 /\ shown' = FALSE /\ UNCHANGED <<lo, hi>>
Next == Show \/ Up
Spec == Init /\ [][Next]_vars

S == R!Stars(lo, hi, v)
Mirror == LET T == R!Stars(lo, hi, lo + hi - v) IN (1 \in S) = (2 \in T) /\ (0 \in S) = (0 \in T)
Never == ~(1 \in S /\ 2 \in S)
Rank(T) == IF 2 \in T THEN 3 ELSE IF 0 \in T THEN 2 ELSE 1
Monotone == v < hi => Rank(S) <= Rank(R!Stars(lo, hi, v + 1))
Ends == v = lo => S = {1}
=============================================================================
