------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* Reports of individuals, the telling of report callbacks, complaints.    *)
(* Individuals are numbers; each report event brings the fitness and the   *)
(* number of evaluations so far. Callback                                  *)
(* events: told (a callback is called), ret (it returns: none, complain,   *)
(* fail, or wait if it returned something that is still to come), fin      *)
(* (that has come). The complaint handler likewise: handler, hret, hfin.   *)
(*                                                                         *)
(* Where more than one outcome is acceptable the state is a set of worlds; *)
(* an event is wrong if it is wrong in all of them.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Inf == 2000000000
When(cond, name) == IF cond THEN {name} ELSE {}

(* Configuration c: ncb callbacks, md threshold in thousandths. *)
World0 == [ best  |-> 0,       \* best reported so far
            bests |-> {},      \* all that have been
            last  |-> 0,       \* latest made due
            due   |-> 0,       \* to be told when callbacks are free
            told  |-> 0,       \* last one told
            cur   |-> 0,       \* being told
            pos   |-> 0,       \* callback it has got to
            st    |-> "idle" ] \* idle, calling, waiting, between, complained, handling, hwaiting

InitState(c) == [ c |-> c, f |-> [x \in {0} |-> Inf], black |-> {}, dead |-> FALSE, off |-> FALSE,
                  waiting |-> 0, w |-> {World0}, since |-> {}, n |-> 0, least |-> 0 ]

F(s, id) == IF id \in s.black \/ id \notin DOMAIN s.f THEN Inf ELSE s.f[id]
Abs(x) == IF x < 0 THEN -x ELSE x

Equivalent(s, i, last) ==
    LET a == F(s, i)  b == F(s, last)
    IN IF last = 0 \/ a = Inf \/ b = Inf \/ b = 0 THEN {FALSE}
       ELSE LET d == Abs(a - b) * 1000  t == s.c.md * b
            IN IF d = t THEN {TRUE, FALSE} ELSE {d < t}

(* A report of individual e.id in world w. e.lone: compared with the best;
   otherwise a challenger compared with its target. *)
Reported(s, w, e) ==
    LET isBest == w.best = 0 \/ F(s, e.id) < F(s, w.best)
        go == isBest \/ e.force
        v == IF isBest THEN [w EXCEPT !.best = e.id, !.bests = @ \cup {e.id}] ELSE w
    IN IF ~go \/ e.id = w.last THEN {v}
       ELSE UNION { IF e.force \/ ~q THEN {[v EXCEPT !.last = e.id, !.due = e.id]} ELSE {v}
                    : q \in Equivalent(s, e.id, w.last) }

(* A run of callbacks begins with the one due, unless that is the one just told. *)
CanBegin(w) == w.st = "idle" /\ w.due # 0 /\ w.due # w.told
Settled(w) == IF w.st = "idle" /\ w.due # 0 /\ w.due = w.told THEN [w EXCEPT !.due = 0] ELSE w

ToldOK(s, w, e) == \/ CanBegin(w) /\ e.cb = 1 /\ e.id = w.due
                   \/ w.st = "between" /\ e.cb = w.pos + 1 /\ e.id = w.cur
Told(w, e) == IF w.st = "idle"
              THEN [w EXCEPT !.cur = e.id, !.told = e.id, !.due = 0, !.pos = 1, !.st = "calling"]
              ELSE [w EXCEPT !.pos = e.cb, !.st = "calling"]

WhyNot(s, w, e) ==
    IF w.st \in {"calling", "waiting", "complained", "handling", "hwaiting"} THEN "C14:Overlap"
    ELSE IF w.st = "between" THEN (IF e.id = w.cur THEN "C14:Order" ELSE "C14:RunAbandoned")
    ELSE IF e.id = w.told THEN "C14:SameAgain"
    ELSE IF e.id # w.due THEN "C14:NotDue" ELSE "C14:Order"

(* The end of one callback. *)
Finished(s, w) == IF w.pos = s.c.ncb THEN Settled([w EXCEPT !.cur = 0, !.pos = 0, !.st = "idle"])
                  ELSE [w EXCEPT !.st = "between"]
(* After a complaint the remaining callbacks need not be called. *)
Abandoned(w) == Settled([w EXCEPT !.cur = 0, !.pos = 0, !.st = "idle"])

Min(s, S) == CHOOSE x \in S : \A y \in S : F(s, x) <= F(s, y)
(* The best so far once individual x is blacklisted (it already is in s). *)
Restored(s, w) ==
    LET left == {x \in w.bests : x \notin s.black}
        all == {x \in s.since : x \notin s.black}
        a == IF left = {} THEN w.best ELSE Min(s, left)
        b == IF all = {} THEN a ELSE Min(s, all)
    IN IF w.best \notin s.black THEN {w.best}
       ELSE IF F(s, b) < F(s, a) THEN {a, b} ELSE {a}
AfterComplaint(s, w) ==
    UNION { LET v == [w EXCEPT !.best = b, !.bests = @ \cup {b}]
            IN {Finished(s, v), Abandoned(v)} : b \in Restored(s, w) }

Step(s, W, Op(_)) == [s EXCEPT !.w = UNION {Op(w) : w \in W}]

Now(s) == IF s.dead THEN {} ELSE s.w

ApplyRet(s, e, kind) ==
    CASE kind = "none"     -> [s EXCEPT !.w = {Finished(s, w) : w \in @}]
      [] kind = "wait"     -> [s EXCEPT !.w = {[w EXCEPT !.st = "waiting"] : w \in @}]
      [] kind = "complain" -> [s EXCEPT !.w = {[w EXCEPT !.st = "complained"] : w \in @}]
      [] OTHER -> [s EXCEPT !.dead = TRUE]

ApplyHRet(s, e, kind) ==
    CASE kind = "wait" -> [s EXCEPT !.w = {[w EXCEPT !.st = "hwaiting"] : w \in @}]
      [] kind = "fail" -> [s EXCEPT !.dead = TRUE, !.black = @ \cup {w.cur : w \in s.w}]
      [] OTHER -> LET t == [s EXCEPT !.black = @ \cup {w.cur : w \in s.w}]
                  IN [t EXCEPT !.w = UNION {AfterComplaint(t, w) : w \in @}]

Apply(s, e) ==
    CASE e.op = "report" ->
            LET rest == \A w \in s.w : w.st = "idle" /\ w.due = 0
                t == [s EXCEPT !.f = (e.id :> e.s) @@ @, !.since = @ \cup {e.id}, !.n = e.n,
                               !.least = IF rest THEN e.n ELSE @]
            IN IF s.dead THEN t ELSE [t EXCEPT !.w = UNION {{Settled(v) : v \in Reported(t, w, e)} : w \in @}]
      [] e.op = "told" -> IF s.dead THEN s
                          ELSE LET ok == {w \in s.w : ToldOK(s, w, e)}
                               IN [s EXCEPT !.w = IF ok = {} THEN {Told(w, e) : w \in @} ELSE {Told(w, e) : w \in ok}]
      [] e.op \in {"ret", "fin"} -> IF s.dead THEN s ELSE ApplyRet(s, e, e.kind)
      [] e.op = "handler" -> IF s.dead THEN s ELSE [s EXCEPT !.w = {[w EXCEPT !.st = "handling"] : w \in @}]
      [] e.op \in {"hret", "hfin"} -> IF s.dead THEN s ELSE ApplyHRet(s, e, e.kind)
      [] e.op = "wait" -> [s EXCEPT !.waiting = @ + 1]
      [] e.op = "waited" -> [s EXCEPT !.waiting = @ - 1]
      [] e.op = "quiet" -> IF s.dead \/ e.best = 0 THEN s
                           ELSE LET ok == {w \in s.w : w.best = e.best}
                                IN [s EXCEPT !.w = IF ok = {} THEN {CHOOSE w \in @ : TRUE} ELSE ok]
      [] e.op = "abort" -> [s EXCEPT !.off = TRUE, !.dead = TRUE]
      [] OTHER -> s

-----------------------------------------------------------------------------
All(s, P(_)) == ~s.dead /\ \A w \in s.w : P(w)

BadTold(s, e) ==
    IF s.dead THEN {"C14:AfterFailure"}
    ELSE (IF \E w \in s.w : ToldOK(s, w, e) THEN {} ELSE {WhyNot(s, CHOOSE w \in s.w : TRUE, e)})
         \cup When(e.s # F(s, e.id), "C14:Fitness")
         \cup When(~e.args, "C14:Arguments")
         \* evaluations so far: those there were when the callbacks were last at rest, at least
         \cup When(e.count < s.least \/ e.count > s.n, "C14:Count")

Waits(w) == w.st \in {"waiting", "hwaiting"}
Busy(w) == w.st # "idle" \/ w.due # 0

BadQuiet(s, e) ==
    When(All(s, LAMBDA w : w.st = "idle" /\ w.due # 0), "C14:NotTold")
    \cup When(All(s, LAMBDA w : w.st = "between"), "C14:CallbackSkipped")
    \cup When(All(s, LAMBDA w : w.st = "complained"), "C15:HandlerNotCalled")
    \cup When(s.dead /\ e.running, "C14:FailureAborts")
    \cup When(e.best # 0 /\ All(s, LAMBDA w : w.best # e.best),
              IF s.black = {} THEN "C14:Best" ELSE "C15:BestRestored")
    \cup When(\E k \in 1..Len(e.pop) : e.pop[k].id \in s.black /\ e.pop[k].s # Inf, "C15:Blacklisted")
    \cup When(\E k \in 1..Len(e.pop) : e.pop[k].id \in DOMAIN s.f \ s.black /\ e.pop[k].s # s.f[e.pop[k].id],
              "C15:OthersUnaffected")
    \cup When(Len(e.pop) > 0 /\ \E k \in 1..Len(e.pop) : e.pop[k].s < e.pop[e.top].s, "C15:LosesRank")

(* Once something else has aborted the population nothing is said here. *)
Bad(s, e) ==
    CASE e.op = "exc"     -> {"C14:Raises", "C15:Raises"}
      [] e.op = "hang"    -> {"C14:Hangs", "C15:Hangs"}
      [] s.off            -> {}
      [] e.op = "told"    -> BadTold(s, e)
      [] e.op = "handler" -> IF s.dead THEN {"C15:HandlerAfterFailure"}
                             ELSE When(All(s, LAMBDA w : w.st # "complained"), "C15:HandlerOncePerComplaint")
                                  \cup When(All(s, LAMBDA w : w.cur # e.id), "C15:HandlerIndividual")
                                  \cup When(~e.same, "C15:HandlerComplaint")
      [] e.op = "waited"  -> When(All(s, Busy), "C14:WaitDone")
      [] e.op = "quiet"   -> BadQuiet(s, e)
      [] e.op = "rest"    -> When(All(s, LAMBDA w : ~Busy(w)) /\ s.waiting > 0, "C14:WaitEnds")
      [] e.op = "challenge" -> When(~e.won, "C15:Displaceable")
      [] OTHER -> {}
=============================================================================
