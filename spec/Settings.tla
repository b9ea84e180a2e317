------------------------------ MODULE Settings ------------------------------
(***************************************************************************)
(* Which settings a run and a population have: the one given, even if it   *)
(* is zero, false or empty; else the one a subclass has; else the one that *)
(* is documented. How many members and what score to aim for follow from   *)
(* those. What makes no sense is refused and leaves everything as it was.  *)
(*                                                                         *)
(* Values are strings; "None" is the same as not given, and never given    *)
(* for what a subclass has a setting of.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

When(cond, name) == IF cond THEN {name} ELSE {}

Documented == [CR |-> "0.8", F |-> "0.5 1.0", maxiter |-> "500", randomBase |-> "False",
               uniform |-> "False", adaptive |-> "True", bitterEnd |-> "False",
               dwellByGrave |-> "5", goalSSE |-> "None", xSSE |-> "False"]
Names == DOMAIN Documented

InitState(c) == [c |-> c]
Apply(s, e) == s

(* Sequences of [n, v]. *)
Given(S, n) == \E k \in 1..Len(S) : S[k].n = n /\ S[k].v # "None"
Value(S, n) == (CHOOSE x \in {S[k] : k \in 1..Len(S)} : x.n = n).v
Setting(kw, cls, n) == IF Given(kw, n) THEN Value(kw, n)
                       ELSE IF Given(cls, n) THEN Value(cls, n) ELSE Documented[n]

(* cr: the crossover rate in thousandths that results, whatever its origin. *)
BadRun(e) ==
    LET wrong == e.cr < 0 \/ e.cr > 1000
    IN IF e.refused # wrong THEN {IF wrong THEN "C38:Accepted" ELSE "C38:Refused"}
       ELSE IF wrong THEN {}
       ELSE When(\E n \in Names : Value(e.got, n) # Setting(e.kw, e.cls, n), "C38:Setting")

Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a > b THEN a ELSE b
Or(x, y) == IF x # 0 THEN x ELSE y
Members(e) == Most(Or(e.npmin, 20), Least(Or(e.popsize, 10) * e.nd, Or(e.npmax, 500)))

(* Fraction and score are in ten-thousandths. *)
BadPop(e) ==
    IF e.refused # e.wrong THEN {IF e.wrong THEN "C38:Accepted" ELSE "C38:Refused"}
    ELSE IF e.refused THEN {}
    ELSE When(e.np # Members(e), "C38:Members")
         \cup When(e.made # Members(e), "C38:MembersMade")
         \cup When(e.score # Or(e.target, 200) * Members(e), "C38:Target")

(* Something put in place: refused if it is of the wrong kind, and if so nothing has changed. *)
BadPut(e) == When(e.refused # e.wrong, IF e.wrong THEN "C38:Accepted" ELSE "C38:Refused")
             \cup When(e.refused /\ e.changed, "C38:ChangedAllTheSame")

Bad(s, e) ==
    CASE e.op = "run"  -> BadRun(e)
      [] e.op = "pop"  -> BadPop(e)
      [] e.op = "put"  -> BadPut(e)
      [] e.op = "exc"  -> {"C38:Raises"}
      [] e.op = "hang" -> {"C38:Hangs"}
      [] OTHER -> {}
=============================================================================
