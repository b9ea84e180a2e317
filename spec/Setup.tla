------------------------------- MODULE Setup -------------------------------
(***************************************************************************)
(* What a user observes of setting up a population: consultations of the   *)
(* constraint functions, evaluations and their results, aborts, members,   *)
(* tellings to report callbacks, the history, and the result of set-up.    *)
(* Parameter vectors are known by a number (vid) given to each distinct    *)
(* one; v is the vector in thousandths, rounded.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Inf == 2000000000
When(cond, name) == IF cond THEN {name} ELSE {}

(* Configuration c: np, nd, par, tries, lo, hi (thousandths), ncons, blank. *)
Empty == [x \in {} |-> 0]

InitState(c) ==
    [ c        |-> c,
      on       |-> FALSE,    \* set-up under way
      blank    |-> FALSE,
      ok       |-> Empty,    \* vid -> constraints that accepted it
      no       |-> {},       \* vids some constraint rejected
      rejects  |-> 0,        \* rejected in a row
      gave     |-> FALSE,    \* the allowed tries were used up
      pend     |-> Empty,    \* id -> vid
      begun    |-> 0,        \* evaluations begun
      good     |-> {},       \* [v, s] evaluated with a finite fitness
      told     |-> {},
      bad      |-> {},       \* vids with a fatal result
      aborted  |-> FALSE,
      fatal    |-> FALSE,
      frozen   |-> <<>>,     \* members when aborted
      members  |-> <<>>,
      fired    |-> FALSE ]

Accepted(s, vid) ==
    \/ s.c.ncons = 0
    \/ vid \in DOMAIN s.ok /\ s.ok[vid] = 1..s.c.ncons /\ vid \notin s.no

BadCons(s, e) ==
    When(~e.names, "C04:ConstraintArguments")

BadEval(s, e) ==
    When(s.aborted /\ s.fatal, "C09:EvaluationAfterFatal")
    \cup When(s.aborted /\ ~s.fatal, "C08:ValuesAfterAbort")
    \cup When(s.gave, "C04:EvaluatedAfterGivingUp")
    \cup When(s.blank, "C05:BlankEvaluates")
    \cup When(~s.on, "C05:EvaluationOutsideSetup")
    \cup When(Cardinality(DOMAIN s.pend) + 1 > s.c.par, "C05:InFlight")
    \cup When(\E d \in 1..s.c.nd : e.v[d] < s.c.lo[d] \/ e.v[d] > s.c.hi[d], "C04:Bounds")
    \cup When(e.vid \in s.no \/ ~e.sat, "C04:Constraints")
    \cup When(~Accepted(s, e.vid) /\ e.sat /\ e.vid \notin s.no, "C04:NotConsulted")
    \cup When(e.x # -1, "C26:LimitInSetup")

(* Members seen now against what may be there. *)
Vids(q) == {q[k].v : k \in 1..Len(q)}
Range(q) == {q[k] : k \in 1..Len(q)}
Finite(q) == SelectSeq(q, LAMBDA m : m.s < Inf)
Count(q, x) == Cardinality({ i \in 1..Len(q) : q[i] = x })
SameBag(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : Count(p, p[i]) = Count(q, p[i])

BadMembers(s, q) ==
    When(Len(q) > s.c.np, "C05:TooMany")
    \cup When(\E k \in 1..Len(q) : q[k].v \in s.bad, "C09:FatalBecameMember")
    \cup When(~s.blank /\ \E k \in 1..Len(q) : q[k] \notin s.good /\ q[k].v \notin s.bad,
              "C05:FitnessAsEvaluated")
    \cup When(~s.blank /\ Cardinality(Vids(q)) # Len(q), "C05:Duplicate")
    \cup When(s.blank /\ \E k \in 1..Len(q) : q[k].s # Inf, "C05:BlankFitness")
    \cup When(s.aborted /\ ~s.fatal /\ q # s.frozen, "C08:Frozen")
    \cup When(s.aborted /\ s.fatal /\ q # s.frozen /\ ~\E k \in 1..Len(q) : q[k].v \in s.bad,
              "C09:MemberAddedAfterFatal")
    \cup When(\E k \in 1..Len(q) : q[k].v \in s.no \/ ~Accepted(s, q[k].v), "C04:MemberNotAccepted")

BadDone(s, e) ==
    When(s.fired, "C05:FiresOnce")
    \cup When(e.result /\ s.fatal, "C09:SetupSucceeded")
    \cup When(e.result /\ s.aborted /\ ~s.fatal, "C08:SetupSucceeded")
    \cup When(e.result /\ s.gave, "C04:SetupSucceeded")
    \cup When(~e.result /\ ~s.aborted /\ ~s.gave, "C05:ReportsSuccess")
    \cup When(e.failed, "C05:Raises")
    \cup When(~s.aborted /\ ~s.gave /\ DOMAIN s.pend # {}, "C05:DoneTooEarly")
    \cup BadMembers(s, e.pop)
    \cup When(e.result /\ Len(e.pop) # s.c.np, "C05:Full")
    \cup When(e.result /\ ~s.blank /\ \E k \in 1..Len(e.pop) : e.pop[k].s >= Inf, "C05:FiniteFitness")

(* Candidates with a valid result become members as long as there is room. *)
Least(a, b) == IF a < b THEN a ELSE b
BadQuiet(s, e) ==
    BadMembers(s, e.pop)
    \cup When(s.on /\ ~s.blank /\ ~s.aborted /\ ~s.gave
              /\ Len(e.pop) < Least(s.c.np, Cardinality(s.good)), "C05:ValidDropped")
    \cup When(DOMAIN s.pend = {} /\ s.on /\ ~s.fired /\ ~s.aborted /\ ~s.gave, "C05:Stuck")
    \cup When(DOMAIN s.pend = {} /\ s.on /\ ~s.fired /\ s.aborted /\ s.fatal, "C09:SetupEnds")
    \cup When(DOMAIN s.pend = {} /\ s.on /\ ~s.fired /\ s.aborted /\ ~s.fatal, "C08:SetupEnds")
    \cup When(DOMAIN s.pend = {} /\ s.on /\ ~s.fired /\ s.gave, "C04:SetupEnds")
    \cup When(s.on /\ ~s.blank /\ ~s.fired /\ ~s.aborted /\ ~s.gave /\ s.begun < s.c.np
              /\ Cardinality(DOMAIN s.pend) < s.c.par, "C39:FewerInFlight")
    \cup When(s.fatal /\ e.running, "C09:PopulationAborted")
    \cup When(s.gave /\ e.running, "C04:PopulationAborted")

BadHist(s, e) ==
    When(\E i \in 1..Len(e.all) : e.all[i].v \in s.bad, "C09:FatalRecorded")
    \cup When(~s.blank /\ ~SameBag(e.inpop, Finite(s.members)), "C17:Members")
    \cup When(e.total # Len(e.all) /\ Len(e.all) < e.max, "C16:LifetimeCount")
    \cup When(Len(e.all) # Len(e.inpop), "C17:LabelsCover")

Bad(s, e) ==
    CASE e.op = "cons"  -> BadCons(s, e)
      [] e.op = "eval"  -> BadEval(s, e)
      [] e.op = "none"  -> When(~s.aborted, "C08:NoValuesWithoutAbort")
      [] e.op = "done"  -> BadDone(s, e)
      [] e.op = "quiet" -> BadQuiet(s, e)
      [] e.op = "told"  -> When(e.v \in s.bad, "C09:FatalReported")
      [] e.op = "hist"  -> BadHist(s, e)
      [] e.op = "rerun" -> When(~e.ended, IF s.fatal THEN "C09:RerunEnds" ELSE "C08:RerunEnds")
      [] e.op = "exc"   -> {"C05:Raises"}
      [] e.op = "stale" -> {"C04:NoLongerInForce"}
      [] e.op = "hang"  -> {"C05:Hangs"}
      [] OTHER -> {}

-----------------------------------------------------------------------------
Fatals == {"neg", "raise", "fail"}
Drop(f, id) == [x \in DOMAIN f \ {id} |-> f[x]]

ApplyCons(s, e) ==
    LET was == IF e.vid \in DOMAIN s.ok THEN s.ok[e.vid] ELSE {}
        n == IF e.ok THEN (IF was \cup {e.k} = 1..s.c.ncons THEN 0 ELSE s.rejects)
             ELSE IF e.vid \in s.no THEN s.rejects ELSE s.rejects + 1
    IN [s EXCEPT
        !.ok = IF e.ok THEN (e.vid :> (was \cup {e.k})) @@ @ ELSE @,
        !.no = IF e.ok THEN @ ELSE @ \cup {e.vid},
        !.rejects = n,
        !.gave = @ \/ n >= s.c.tries]

ApplyRes(s, e) ==
    IF e.id \notin DOMAIN s.pend THEN s ELSE
    LET vid == s.pend[e.id]
        f == e.kind \in Fatals /\ ~s.aborted
    IN [s EXCEPT
        !.pend = Drop(@, e.id),
        !.good = IF e.kind = "num" THEN @ \cup {[v |-> vid, s |-> e.s]} ELSE @,
        !.bad = IF e.kind \in Fatals THEN @ \cup {vid} ELSE @,
        !.fatal = @ \/ f,
        !.frozen = IF f THEN e.pop ELSE @,
        !.aborted = @ \/ f]

Apply(s, e) ==
    CASE e.op = "setup" -> [InitState(s.c) EXCEPT !.on = TRUE, !.bad = s.bad,
                                                  !.blank = e.blank /\ ~s.aborted /\ ~s.gave,
                                                  !.aborted = s.aborted \/ s.gave, !.fatal = s.fatal,
                                                  !.frozen = s.members, !.members = s.members,
                                                  !.good = IF s.aborted \/ s.gave
                                                           THEN s.good \cup Range(s.members) ELSE {},
                                                  !.ok = s.ok, !.no = s.no]
      [] e.op = "cons"  -> ApplyCons(s, e)
      [] e.op = "eval"  -> [s EXCEPT !.pend = (e.id :> e.vid) @@ @, !.begun = @ + 1]
      [] e.op = "res"   -> ApplyRes(s, e)
      [] e.op = "abort" -> IF s.aborted THEN s
                           ELSE [s EXCEPT !.aborted = TRUE, !.frozen = e.pop]
      \* the population was saved and loaded again
      [] e.op = "loaded" -> [s EXCEPT !.aborted = FALSE, !.fatal = FALSE, !.gave = FALSE]
      [] e.op = "done"  -> [s EXCEPT !.fired = TRUE, !.members = e.pop]
      [] e.op = "quiet" -> [s EXCEPT !.members = e.pop]
      [] OTHER -> s
=============================================================================
