-------------------------------- MODULE Run --------------------------------
(***************************************************************************)
(* What a user of ade can observe of a run of differential evolution: the  *)
(* calls of the evaluation function and of the constraint functions, the   *)
(* results given back, the generation callback, aborts, completion, the    *)
(* members of the population, and the history at the end.                  *)
(*                                                                         *)
(* The state is the population that one-at-a-time evolution would have.    *)
(* Bad(s, e) names every clause that observation e violates in state s,    *)
(* and Apply(s, e) is the state after it.  Parameter values and fitness    *)
(* are integers; Inf stands for every invalid fitness.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Inf == 2000000000

Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
When(cond, name) == IF cond THEN {name} ELSE {}

(* Reflection at a bound and then clipping to the bounds. *)
Limit(x, lo, hi) ==
    LET y == IF x < lo THEN 2*lo - x ELSE x
        z == IF y > hi THEN 2*hi - y ELSE y
    IN IF z < lo THEN lo ELSE IF z > hi THEN hi ELSE z

-----------------------------------------------------------------------------
(* Configuration c: np, nd, lo, hi, cr (percent), fnum/fden (the exact F) or
   fden = 0 for a range flo..fhi in thousandths with values logged in units
   of 1/scale, base (0 best, 100 any, else percent), xsse, maxgen, sync
   ("async", "sync", "mixed"), cons (linear constraints a.v <= b), pop, plan
   (for each target, the members its challenges use; empty if not known). *)

Nobody == [id \in {} |-> 0]

InitState(c) ==
    [ c       |-> c,
      pop     |-> c.pop,
      snap    |-> c.pop,        \* population when the generation began
      k       |-> 0,            \* generations completed
      started |-> {},
      decided |-> {},
      unknown |-> 0,            \* challenges whose target was not identified
      pend    |-> Nobody,
      owed    |-> 0,            \* report callbacks that have not finished
      dead    |-> FALSE,        \* population aborted
      stopped |-> FALSE,        \* run told to stop
      fatal   |-> FALSE,
      turn    |-> FALSE,        \* that happened in this very turn of the reactor
      evalAfter |-> FALSE,      \* a result arrived since the population was aborted
      ended   |-> FALSE,
      lost    |-> <<>>,         \* losing challengers with finite fitness
      gone    |-> <<>>,         \* displaced members with finite fitness
      bad     |-> {},           \* vectors whose evaluation was fatal
      evals   |-> 0,
      asBest  |-> 0,            \* of those, with the best other member for a base
      mut     |-> [d \in 1..c.nd |-> 0] ]

Members(s) == 1..s.c.np

InBounds(c, v) == \A d \in 1..c.nd : v[d] >= c.lo[d] /\ v[d] <= c.hi[d]

RECURSIVE Dot(_, _, _)
Dot(a, v, d) == IF d = 0 THEN 0 ELSE a[d] * v[d] + Dot(a, v, d-1)
Satisfies(c, v) == \A i \in 1..Len(c.cons) : Dot(c.cons[i].a, v, c.nd) <= c.cons[i].b

(* Donor value of dimension d from base, first and second. *)
Donor(c, d, b, x, y) ==
    Limit(b[d] + ((x[d] - y[d]) * c.fnum) \div c.fden, c.lo[d], c.hi[d])

(* Does v come from target tv with base b and difference x - y? *)
MaskOK(c, v, tv, don) ==
    /\ \A d \in 1..c.nd : v[d] = tv[d] \/ v[d] = don[d]
    /\ \E d \in 1..c.nd : v[d] = don[d]
    /\ c.cr = 100 => \A d \in 1..c.nd : v[d] = don[d]
    /\ c.cr = 0 => Cardinality({d \in 1..c.nd : v[d] # tv[d]}) <= 1

ExactOK(c, v, tv, b, x, y) ==
    MaskOK(c, v, tv, [d \in 1..c.nd |-> Donor(c, d, b, x, y)])

(* The same for a real F in a range: one F has to explain every mutated
   dimension.  v is in units of 1/scale. *)
RangeOK(c, v, tv, b, x, y) ==
    LET M == {d \in 1..c.nd : v[d] # c.scale * tv[d]}
        X(d) == v[d] - c.scale * b[d]
        D(d) == x[d] - y[d]
        S(d) == IF D(d) < 0 THEN -1 ELSE 1
    IN /\ M # {}
       /\ c.cr = 100 => M = 1..c.nd
       /\ c.cr = 0 => Cardinality(M) = 1
       /\ \A d \in M : /\ S(d)*X(d) * 1000 >= c.flo * c.scale * Abs(D(d)) - 2000
                       /\ S(d)*X(d) * 1000 <= c.fhi * c.scale * Abs(D(d)) + 2000
       /\ \A d, e \in M : Abs(X(d)*D(e) - X(e)*D(d)) <= 2*(Abs(D(d)) + Abs(D(e)))

RecipeOK(c, v, tv, b, x, y) ==
    IF c.fden = 0 THEN RangeOK(c, v, tv, b, x, y) ELSE ExactOK(c, v, tv, b, x, y)

(* Best of the members other than t in population q. *)
BestOthers(s, q, t) ==
    { k \in Members(s) \ {t} : \A m \in Members(s) \ {t} : q[k].s <= q[m].s }
Better(s, q, t, b) == Cardinality({ m \in Members(s) \ {t} : q[m].s < q[b].s })

(* Indices allowed as base for target t. *)
BaseOK(s, t, b) ==
    CASE s.c.base = 100 -> TRUE
      [] s.c.base = 0 ->
            CASE s.c.sync = "async" -> b \in BestOthers(s, s.snap, t)
              [] s.c.sync = "sync"  -> b \in BestOthers(s, s.pop, t)
              [] OTHER -> TRUE
      [] OTHER -> s.c.sync # "async" \/ s.c.base > 50 \/
                  100 * Better(s, s.snap, t, b) < 2 * s.c.base * (s.c.np - 1)

(* Member k as a sequential run would read it for target t. *)
SeqVal(s, t, k) == IF k <= t THEN s.pop[k].v ELSE s.snap[k].v
SeqReady(s, t, k) == k >= t \/ k \in s.decided \/ s.unknown > 0

(* Every version of member k that might have been read by mistake. *)
AnyVals(s, k) == {s.pop[k].v, s.snap[k].v}
                 \cup { s.pend[id].v : id \in {i \in DOMAIN s.pend : s.pend[i].t = k} }

Triples(s, t) ==
    { p \in (Members(s) \ {t}) \X (Members(s) \ {t}) \X (Members(s) \ {t}) :
        p[1] # p[2] /\ p[1] # p[3] /\ p[2] # p[3] }

(* The same from the members that the challenge is known to have drawn, if so. *)
Drawn(s, t) ==
    IF s.c.plan = <<>> THEN {}
    ELSE LET P == {s.c.plan[t][i] : i \in 1..3} IN
         { p \in P \X P \X P : p[1] # p[2] /\ p[1] # p[3] /\ p[2] # p[3] }

ExplainedBy(S, s, t, v) ==
    \E p \in S :
        /\ SeqReady(s, t, p[1]) /\ SeqReady(s, t, p[2]) /\ SeqReady(s, t, p[3])
        /\ BaseOK(s, t, p[1])
        /\ RecipeOK(s.c, v, s.snap[t].v, SeqVal(s, t, p[1]), SeqVal(s, t, p[2]), SeqVal(s, t, p[3]))

Explained(s, t, v) == ExplainedBy(Drawn(s, t), s, t, v) \/ ExplainedBy(Triples(s, t), s, t, v)

ExplainedButBase(s, t, v) == s.c.base # 100 /\
    \E p \in Triples(s, t) :
        /\ SeqReady(s, t, p[1]) /\ SeqReady(s, t, p[2]) /\ SeqReady(s, t, p[3])
        /\ RecipeOK(s.c, v, s.snap[t].v, SeqVal(s, t, p[1]), SeqVal(s, t, p[2]), SeqVal(s, t, p[3]))

(* In a long run with any member for a base: might it be the best one this time? *)
Counted(c) == c.base >= 40 /\ c.np >= 6 /\ c.maxgen >= 20
FromBest(s, t, v) ==
    \E p \in Triples(s, t) :
        /\ p[1] \in BestOthers(s, s.snap, t)
        /\ RecipeOK(s.c, v, s.snap[t].v, SeqVal(s, t, p[1]), SeqVal(s, t, p[2]), SeqVal(s, t, p[3]))

ExplainedOutOfOrder(s, t, v) ==
    \E p \in (IF s.c.plan = <<>> \/ s.c.np <= 12 THEN Triples(s, t) ELSE Drawn(s, t)) :
        \E tv \in AnyVals(s, t), b \in AnyVals(s, p[1]), x \in AnyVals(s, p[2]), y \in AnyVals(s, p[3]) :
            RecipeOK(s.c, v, tv, b, x, y)

(* The clause, if any, that challenger v for target t violates. *)
RecipeClauses(s, t, v) ==
    IF Explained(s, t, v) THEN {}
    ELSE IF ExplainedButBase(s, t, v) THEN {"C02:Base"}
    ELSE IF ExplainedOutOfOrder(s, t, v) THEN {"C01:SequentialReads"}
    ELSE {"C02:Recipe"}

(* v in the units of the bounds. *)
Plain(c, v) == IF c.fden = 0 THEN [d \in 1..c.nd |-> v[d] \div c.scale] ELSE v

-----------------------------------------------------------------------------
(* With some evaluations synchronous, a challenge that already has its members
   may be overtaken by another that fails while the first gives up its locks. *)
Overtaken(s) == s.turn /\ s.c.sync = "mixed"

(* Does the challenge for target u stand in the way of the one for t? *)
Uses(s, t) == {t} \cup {s.c.plan[t][i] : i \in 1..Len(s.c.plan[t])}
InTheWay(s, u, t) ==
    IF u \in s.started THEN u \notin s.decided /\ u \in Uses(s, t)
    ELSE Uses(s, u) \cap Uses(s, t) # {}
HeldUp(s, t) == \E u \in 1..t-1 : InTheWay(s, u, t)
BadWait(s) ==
    IF s.c.plan = <<>> \/ s.dead \/ s.stopped \/ s.ended \/ s.k >= s.c.maxgen \/ s.unknown > 0
       \/ (s.started = {} /\ s.owed > 0) THEN {}
    ELSE When(\E t \in Members(s) \ s.started : ~HeldUp(s, t), "C39:WaitsNeedlessly")

BadEval(s, e) ==
    LET t == e.t IN
    When(s.owed > 0 /\ s.started = {} /\ s.unknown = 0 /\ s.k > 0 /\ ~s.dead /\ ~s.stopped, "C39:ReportsUnfinished") \cup
    When(s.ended /\ ~Overtaken(s), "C06:EvaluationAfterEnd")
    \cup When(s.stopped /\ ~s.fatal, "C08:EvaluationAfterStop")
    \cup When(s.dead, "C08:ValuesAfterAbort")
    \cup When(s.fatal /\ ~Overtaken(s), "C09:EvaluationAfterFatal")
    \cup When(s.k >= s.c.maxgen, "C06:TooManyGenerations")
    \cup When(t > 0 /\ t \in s.started, "C06:OneChallengePerTarget")
    \cup When(~InBounds(s.c, Plain(s.c, e.v)), "C04:Bounds")
    \cup When(~Satisfies(s.c, e.v), "C04:Constraints")
    \cup (IF t > 0 /\ ~s.dead /\ ~s.stopped /\ t \notin s.started
          THEN RecipeClauses(s, t, e.v) ELSE {})
    \cup When(~s.c.xsse /\ e.x # -1, "C26:NoLimit")
    \cup When(s.c.xsse /\ t > 0 /\ e.x # s.snap[t].s, "C26:Limit")

(* A constraint function was consulted about a challenger. *)
BadCons(s, e) ==
    When(e.ok # Satisfies(s.c, e.v), "C04:ConstraintArguments")
    \cup (IF ~e.ok /\ e.t > 0 /\ e.t \notin s.started
          THEN RecipeClauses(s, e.t, e.v) ELSE {})
    \cup When(~e.ok /\ e.t > 0 /\ e.t \in s.started, "C06:OneChallengePerTarget")

(* Vectors only ever seen with a fatal result. *)
OnlyFatal(s) == s.bad \ ( {s.pop[k].v : k \in 1..Len(s.pop)}
                         \cup {s.gone[i].v : i \in 1..Len(s.gone)}
                         \cup {s.lost[i].v : i \in 1..Len(s.lost)} )

MemberClauses(s, k, m) ==
    LET old == s.pop[k] IN
    IF m = old THEN {}
    ELSE IF s.fatal THEN
        When(m.v \in s.bad, "C09:FatalBecameMember")
        \cup When(m.v \notin s.bad, "C09:MemberChangedAfterFatal")
    ELSE IF s.dead \/ s.stopped THEN {"C08:Frozen"}
    ELSE IF m.v = old.v THEN {"C03:FitnessNotAsEvaluated"}
    ELSE {"C03:Replacement"}

BadQuiet(s, e) ==
    UNION { MemberClauses(s, k, e.pop[k]) : k \in 1..Len(e.pop) }
    \cup When(Len(e.pop) # s.c.np, "C03:Size")
    \cup (IF e.stuck /\ ~s.ended THEN
            When(~s.dead /\ ~s.stopped, "C06:Stuck")
            \cup When(s.fatal, "C09:RunEnds")
            \cup When((s.dead \/ s.stopped) /\ ~s.fatal, "C08:RunEnds")
          ELSE {})
    \cup BadWait(s)
    \cup When(s.stopped /\ s.fatal /\ ~s.ended, "C09:RunEnds")
    \cup When(s.stopped /\ ~s.fatal /\ ~s.ended /\ e.waits = 0, "C08:RunEndsAtOnce")
    \cup When(s.dead /\ s.evalAfter /\ ~s.ended /\ ~s.fatal, "C08:RunEnds")

BadGen(s, e) ==
    When(s.ended, "C06:GenerationAfterEnd")
    \cup When(s.started # Members(s) /\ s.unknown = 0, "C06:EveryTargetChallenged")
    \cup When(DOMAIN s.pend # {}, "C06:GenerationsOverlap")
    \cup When(e.k # s.k, "C07:CallbackOrder")
    \cup When(s.k >= s.c.maxgen, "C06:TooManyGenerations")
    \cup When(e.locked > 0, "C06:LocksLeft")

BadEnd(s, e) ==
    When(s.ended, "C06:EndsOnce")
    \cup When(e.kind # "pop", "C06:CompletesWithPopulation")
    \cup When(~s.dead /\ ~s.stopped /\ DOMAIN s.pend # {}, "C06:EndedEarly")
    \cup When(~s.dead /\ ~s.stopped /\ s.started \notin {{}, Members(s)} /\ s.unknown = 0,
              "C06:EveryTargetChallenged")
    \cup When(~s.dead /\ ~s.stopped /\ s.c.runall /\ s.k # s.c.maxgen, "C06:EndedEarly")
    \cup When(~s.dead /\ ~s.stopped /\ e.locked > 0, "C06:LocksLeft")

(* Statistics of crossover over a whole trace, six standard deviations. *)
Skewed(n, k, pct) ==     \* k of n successes where pct percent are expected
    LET dev == Abs(100*k - n*pct) IN
    dev > 40000 \/ dev * dev > 36 * n * pct * (100 - pct) + 40000
BadBase(s) ==       \* at most two of at least five, as base and first might be exchanged
    IF ~Counted(s.c) \/ s.evals < 200 THEN {}
    ELSE When(3 * s.asBest > 2 * s.evals \/ s.asBest = 0, "C02:BaseNotRandom")
BadStat(s) ==
    IF s.evals < 100 THEN {}
    ELSE BadBase(s) \cup IF s.c.cr = 0 THEN
        When(\E d \in 1..s.c.nd : s.mut[d] = 0, "C02:SomeParameterNeverMutated")
    ELSE IF s.c.cr = 100 THEN {}
    ELSE When(\E d \in 1..s.c.nd :
                Skewed(s.evals, s.mut[d], (100 + (s.c.nd - 1) * s.c.cr) \div s.c.nd),
              "C02:CrossoverRate")

Count(q, x) == Cardinality({ i \in 1..Len(q) : q[i] = x })
SameBag(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : Count(p, p[i]) = Count(q, p[i])
Finite(q) == SelectSeq(q, LAMBDA m : m.s < Inf)

BadHist(s, e) ==
    When(\E i \in 1..Len(e.all)-1 : e.all[i].s > e.all[i+1].s, "C16:Sorted")
    \cup When(Len(e.all) # Len(e.inpop) + Len(e.former) + Len(e.never), "C17:LabelsCover")
    \cup When(~SameBag(e.inpop, Finite(s.pop)), "C17:Members")
    \cup When(s.c.histall /\ ~SameBag(e.former, s.gone), "C17:Former")
    \cup When(s.c.histall /\ s.c.xsse /\ e.never # <<>>, "C26:LosersNotRecorded")
    \cup When(s.c.histall /\ ~s.c.xsse /\ s.unknown = 0 /\ ~SameBag(e.never, s.lost), "C26:LosersRecorded")
    \cup When(\E i \in 1..Len(e.all) : e.all[i].v \in OnlyFatal(s), "C09:FatalRecorded")

Bad(s, e) ==
    CASE e.op = "eval"  -> BadEval(s, e)
      [] e.op = "cons"  -> BadCons(s, e)
      [] e.op = "none"  -> When(~s.dead, "C08:NoValuesWithoutAbort")
      [] e.op = "quiet" -> BadQuiet(s, e)
      [] e.op = "gen"   -> BadGen(s, e)
      [] e.op = "end"   -> BadEnd(s, e) \cup BadStat(s)
      [] e.op = "hist"  -> BadHist(s, e)
      [] e.op = "locks" -> When(e.locked > 0, "C06:LocksLeft")
      [] e.op = "told"  -> When(e.v \in OnlyFatal(s), "C09:FatalReported")
      [] e.op = "lockreq" -> When(~e.granted, "C08:LockAfterAbort")
      [] e.op = "rerun" -> When(~e.ended, "C08:RerunEnds")
      [] e.op = "stale" -> {"C04:NoLongerInForce"}
      [] e.op = "exc"   -> IF e.during = "abort" THEN {"C08:Raises"} ELSE {"C06:Raises"}
      [] e.op = "hang"  -> {"C06:Hangs"}
      [] OTHER -> {}

-----------------------------------------------------------------------------
Drop(f, id) == [x \in DOMAIN f \ {id} |-> f[x]]

ApplyEval(s, e) ==
    LET t == e.t
        tv == IF t > 0 THEN s.snap[t].v ELSE <<>>
        u == IF s.c.fden = 0 THEN s.c.scale ELSE 1
    IN [s EXCEPT
        !.started = IF t > 0 THEN @ \cup {t} ELSE @,
        !.unknown = IF t > 0 THEN @ ELSE @ + 1,
        !.pend = @ @@ (e.id :> [t |-> t, v |-> e.v]),
        !.evals = IF t > 0 THEN @ + 1 ELSE @,
        !.asBest = IF t > 0 /\ Counted(s.c) /\ FromBest(s, t, e.v) THEN @ + 1 ELSE @,
        !.mut = IF t > 0 THEN [d \in 1..s.c.nd |-> @[d] + (IF e.v[d] # u * tv[d] THEN 1 ELSE 0)] ELSE @]

Fatals == {"neg", "raise", "fail"}

ApplyRes(s, e) ==
    IF e.id \notin DOMAIN s.pend THEN
        \* an evaluation without values
        [s EXCEPT !.evalAfter = @ \/ s.dead]
    ELSE
    LET p == s.pend[e.id]
        live == ~s.dead /\ ~s.stopped
        f == IF e.kind = "num" THEN e.s ELSE Inf
        wins == live /\ p.t > 0 /\ e.kind \notin Fatals /\ f < s.pop[p.t].s
    IN [s EXCEPT
        !.pend = Drop(@, e.id),
        !.decided = IF p.t > 0 THEN @ \cup {p.t} ELSE @,
        !.pop = IF wins THEN [@ EXCEPT ![p.t] = [v |-> p.v, s |-> f]] ELSE @,
        !.gone = IF wins /\ s.pop[p.t].s < Inf THEN Append(@, s.pop[p.t]) ELSE @,
        !.lost = IF live /\ ~wins /\ e.kind \notin Fatals /\ f < Inf /\ ~s.c.xsse
                 THEN Append(@, [v |-> p.v, s |-> f]) ELSE @,
        !.fatal = @ \/ (live /\ e.kind \in Fatals),
        !.stopped = @ \/ (live /\ e.kind \in Fatals),
        !.turn = @ \/ (live /\ e.kind \in Fatals),
        !.bad = IF e.kind \in Fatals THEN @ \cup {p.v} ELSE @,
        !.evalAfter = @ \/ s.dead]

ApplyCons(s, e) ==
    IF e.ok THEN s
    ELSE IF e.t > 0
    THEN [s EXCEPT !.started = @ \cup {e.t}, !.decided = @ \cup {e.t}]
    ELSE [s EXCEPT !.unknown = @ + 1]

ApplyAbort(s, e) ==
    [s EXCEPT !.dead = @ \/ e.kind \in {"key", "now", "pop", "callback"},
              !.stopped = @ \/ e.kind \in {"key", "now", "run"}]

Apply(s, e) ==
    CASE e.op = "eval"  -> ApplyEval(s, e)
      [] e.op = "cons"  -> ApplyCons(s, e)
      [] e.op = "res"   -> ApplyRes(s, e)
      [] e.op = "quiet" -> [s EXCEPT !.pop = e.pop, !.turn = FALSE]
      [] e.op = "gen"   -> [s EXCEPT !.k = @ + 1, !.snap = s.pop, !.started = {},
                                     !.decided = {}, !.unknown = 0]
      [] e.op = "abort" -> ApplyAbort(s, e)
      [] e.op = "told"  -> [s EXCEPT !.owed = IF e.slow THEN @ + 1 ELSE @]
      [] e.op = "freed" -> [s EXCEPT !.owed = @ - 1]
      [] e.op = "end"   -> [s EXCEPT !.ended = TRUE]
      [] OTHER -> s
=============================================================================
