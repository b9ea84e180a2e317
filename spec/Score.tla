-------------------------------- MODULE Score --------------------------------
(***************************************************************************)
(* The score of improvements in a generation and the judgement whether the *)
(* status quo holds. Scores and targets are in thousandths.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

C == INSTANCE Classify
When(cond, name) == IF cond THEN {name} ELSE {}

(* Configuration c: target, md, best (fitness of the best reported). *)
InitState(c) == [c |-> c, first |-> TRUE, score |-> 0, target |-> c.target, best |-> c.best]

Weight(r) == IF r = 0 THEN 100 ELSE 1000 * r - 500
Won(e) == C!Better(e.new, e.old)
RatioOf(s, e) == (CHOOSE x \in C!Outcomes(e.old, e.new, s.c.md, "!") : TRUE)[1]
Gain(s, e) == (IF Won(e) THEN Weight(RatioOf(s, e)) ELSE 0)
              + (IF C!Better(e.new, s.best) THEN Weight(1) ELSE 0)

BadAsk(s, e) ==
    IF s.first THEN When(~e.yes, "C12:FirstTime")
    ELSE IF s.score = 0 THEN When(e.yes, "C12:ZeroScore")
    ELSE IF s.score > s.target THEN When(~e.yes, "C12:AboveTarget")
    ELSE {}

Bad(s, e) ==
    CASE e.op = "ask"   -> BadAsk(s, e)
      [] e.op = "score" -> When(~s.first /\ e.x # s.score, "C12:Score")
      [] e.op = "exc"   -> {"C12:Raises"}
      [] e.op = "hang"  -> {"C12:Hangs"}
      [] OTHER -> {}

Add(s, x) == IF s.first THEN s ELSE [s EXCEPT !.score = @ + x]
Apply(s, e) ==
    CASE e.op = "ask"    -> [s EXCEPT !.first = FALSE, !.score = 0]
      [] e.op = "ratio"  -> Add(s, Weight(e.r))
      [] e.op = "report" -> LET t == Add(s, Gain(s, e))
                            IN [t EXCEPT !.best = IF C!Better(e.new, @) THEN e.new ELSE @]
      [] e.op = "lone"   -> [s EXCEPT !.best = IF C!Better(e.new, @) THEN e.new ELSE @]
      [] e.op = "target" -> [s EXCEPT !.target = e.t]
      [] OTHER -> s
=============================================================================
