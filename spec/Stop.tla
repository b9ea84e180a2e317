-------------------------------- MODULE Stop --------------------------------
(***************************************************************************)
(* When a run stops. A trace is a run, or several on one population, seen  *)
(* as: rounds of evaluations (one round challenges every index once),      *)
(* generation callbacks, tellings of the best, and completion. A round is  *)
(* "better" (its improvements are well above the target), "worse" (nothing *)
(* won), or "unclear". F limits are in millionths.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

When(cond, name) == IF cond THEN {name} ELSE {}

(* Configuration: nothing; each "run" event brings its own: maxgen, goal (-1:
   none), bitter, dwell, adaptive, seq, lo, hi, crit. *)
InitState(c) ==
    [ c      |-> c,
      on     |-> FALSE,
      k      |-> 0,           \* generations evaluated
      called |-> 0,           \* generation callbacks seen
      due    |-> "go",        \* what has to come after the last round
      may    |-> "go",        \* ... or may
      dwell  |-> {0},         \* possible counts of futile generations
      lo     |-> 0, hi |-> 0, \* limits of F
      asked  |-> FALSE,       \* an inquiry was made before
      unsure |-> FALSE,       \* improvements of an earlier run not yet judged
      best   |-> -1,
      told   |-> -1,
      waits  |-> 0 ]          \* callbacks not yet finished

Close(a, b) == a - b \in -6..6
(* Whether F can shrink no further: a set of possible answers. *)
DownLo(s) == (s.lo * 89) \div 100
DownHi(s) == (s.hi * 87) \div 100
CannotShrink(s) ==
    IF ~s.c.adaptive \/ (s.c.seq /\ s.c.lo = 0) THEN {FALSE}
    ELSE IF Close(DownLo(s), s.c.crit) \/ (s.c.seq /\ Close(DownHi(s), 3 * s.lo)) THEN {TRUE, FALSE}
    ELSE {DownLo(s) <= s.c.crit /\ (s.c.seq => DownHi(s) <= 3 * s.lo)}

GoalMet(s, e) == s.c.goal >= 0 /\ e.best < s.c.goal

(* What the counts may be after a round. *)
AfterWorse(s) == UNION { { IF q THEN d + 1 ELSE d : d \in s.dwell } : q \in CannotShrink(s) }
Kind(s, e) == IF ~s.asked THEN "better" ELSE IF s.unsure THEN "unclear" ELSE e.kind
After(s, e) == CASE Kind(s, e) = "better" -> {0}
                 [] Kind(s, e) = "worse"  -> AfterWorse(s)
                 [] OTHER -> {0} \cup AfterWorse(s)

(* Goes on after this round: with certainty, possibly. *)
Verdicts(s, e) ==
    IF GoalMet(s, e) THEN {"goal"}
    ELSE IF s.c.bitter THEN {"go"}
    ELSE { IF d > s.c.dwell THEN "futile" ELSE "go" : d \in After(s, e) }

BadRound(s, e) ==
    When(~s.on, "C07:RoundOutsideRun")
    \cup When(s.k >= s.c.maxgen, "C07:TooManyGenerations")
    \cup When("go" \notin s.due, "C07:StopsTooLate")
    \cup When("go" \in s.due /\ s.called # s.k, "C07:CallbackEachGeneration")

BadGen(s, e) ==
    When(e.k # s.called, "C07:CallbackOrder")
    \cup When(e.k + 1 # s.k, "C07:CallbackAfterGeneration")
    \cup When("go" \notin s.due /\ s.k < s.c.maxgen, "C07:StopsTooLate")

BadEnd(s, e) ==
    When(~s.on, "C07:EndsOnce")
    \cup When(s.due = {"go"} /\ s.k < s.c.maxgen, "C07:StopsTooEarly")
    \cup When(s.k = s.c.maxgen /\ s.due = {"go"} /\ s.called # s.k, "C07:CallbackOfLast")
    \cup When(s.k < s.c.maxgen /\ s.called # s.k - 1 /\ "go" \notin s.due, "C07:CallbackOfLast")
    \cup When(s.told # e.best, "C07:FinalReport")
    \cup When(s.waits # 0, "C07:ReportBeforeEnd")

Bad(s, e) ==
    CASE e.op = "round" -> BadRound(s, e)
      [] e.op = "gen"   -> BadGen(s, e)
      [] e.op = "end"   -> BadEnd(s, e)
      [] e.op = "stuck" -> {"C07:Stuck"}
      [] e.op = "exc"   -> {"C07:Raises"}
      [] e.op = "hang"  -> {"C07:Hangs"}
      [] OTHER -> {}

Keep(s, v) ==  \* counts consistent with the run going on
    {d \in s.dwell : s.c.bitter \/ d <= s.c.dwell}

Apply(s, e) ==
    CASE e.op = "run"   -> [s EXCEPT !.c = e.c, !.on = TRUE, !.k = 0, !.called = 0, !.due = {"go"},
                                     !.dwell = {0}, !.lo = IF e.c.lo = 0 THEN e.c.crit ELSE e.c.lo, !.hi = e.c.hi]
      [] e.op = "round" -> [s EXCEPT !.k = @ + 1, !.due = Verdicts(s, e), !.best = e.best,
                                     !.dwell = IF GoalMet(s, e) THEN @ ELSE After(s, e),
                                     !.asked = @ \/ ~GoalMet(s, e),
                                     !.unsure = GoalMet(s, e) /\ s.asked]
      [] e.op = "gen"   -> [s EXCEPT !.called = @ + 1, !.lo = e.lo, !.hi = e.hi, !.dwell = Keep(s, e)]
      [] e.op = "told"  -> [s EXCEPT !.told = e.s, !.waits = IF e.waits THEN @ + 1 ELSE @]
      [] e.op = "heard" -> [s EXCEPT !.waits = @ - 1]
      [] e.op = "end"   -> [s EXCEPT !.on = FALSE]
      [] OTHER -> s
=============================================================================
