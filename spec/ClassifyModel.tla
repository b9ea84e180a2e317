---------------------------- MODULE ClassifyModel ----------------------------
(***************************************************************************)
(* Every pair of fitness values around the thresholds. Checks that the     *)
(* table makes sense and prints each pair for replay.                      *)
(***************************************************************************)
EXTENDS Classify, Json

Values == {Fatal, Inf, 0, 1, 2, 3, 49, 50, 51, 97, 98, 99, 100, 101, 102, 103, 149, 150, 151,
           249, 250, 251, 849, 850, 851, 899, 900, 949, 950, 951, 1000, 100000}

VARIABLES a, b, done
vars == <<a, b, done>>
Init == a \in Values /\ b \in Values /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<a, b>>
        /\ PrintT(<<"BEHAVIOUR", ToJson(<<a, b>>)>>)
Spec == Init /\ [][Next]_vars

O == Outcomes(a, b, 20, "!")
Back == Outcomes(b, a, 20, "!")
SomeOutcome == O # {}
LoserHasNone == a >= 0 /\ b >= 0 /\ a < b /\ b # Inf => O = {<<Nothing, "X">>} /\ <<Nothing, "X">> \notin Back
RatioAgreesWithDigit == \A x \in O : x[1] \in 1..9 => x[2] = Digit(x[1])
ManyIsNine == \A x \in O : x[1] >= 9 /\ a # Inf => x[2] = "9"
Monotone == \A m \in Values : a >= 0 /\ b > 0 /\ m > a /\ m < Inf /\ a # Inf /\ b < Inf =>
    \A x \in O, y \in Outcomes(m, b, 20, "!") : x[1] <= y[1]
=============================================================================
