----------------------------- MODULE ReportModel -----------------------------
(***************************************************************************)
(* A reporter with two callbacks, and everything that can be done to it:   *)
(* reports better, equivalent, worse, forced; callbacks that return at     *)
(* once, later, complain, or fail; complaint handlers likewise. What it    *)
(* does is put to Report, which must find nothing wrong, and each          *)
(* behaviour is printed for replay.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT Depth

R == INSTANCE Report

VARIABLES s,        \* state of the specification
          m,        \* the reporter
          ops,
          wrong     \* clauses violated
vars == <<s, m, ops, wrong>>

N == 2
Init == /\ s = R!InitState([ncb |-> N, md |-> 20])
        /\ m = [n |-> 0, f |-> <<>>, best |-> 0, former |-> {}, last |-> 0, sched |-> 0, prev |-> 0,
                cur |-> 0, cb |-> 0, count |-> 0, st |-> "idle", dead |-> FALSE]
        /\ ops = <<>> /\ wrong = {}

(* Puts a sequence of events to the specification. *)
RECURSIVE Put(_, _, _)
Put(t, bad, E) == IF E = <<>> THEN <<t, bad>>
                  ELSE Put(R!Apply(t, Head(E)), bad \cup R!Bad(t, Head(E)), Tail(E))
Emit(E) == LET x == Put(s, wrong, E) IN s' = x[1] /\ wrong' = x[2]

Quiet(v) == [op |-> "quiet", best |-> v.best, pop |-> <<>>, top |-> 0, running |-> ~v.dead]
Told(v) == [op |-> "told", cb |-> v.cb, id |-> v.cur, s |-> v.f[v.cur], args |-> TRUE, count |-> v.count]

(* Goes on to the next callback if there is one to call: <<new machine, events>>. *)
RECURSIVE Go(_)
Go(v) == IF v.dead THEN <<[v EXCEPT !.st = "idle"], <<>>>>
         ELSE IF v.st = "next" /\ v.cb < N
              THEN LET w == [v EXCEPT !.cb = @ + 1, !.st = "calling"] IN <<w, <<Told(w)>>>>
         ELSE IF v.sched = 0 THEN <<[v EXCEPT !.st = "idle", !.cur = 0, !.prev = 0], <<>>>>
         ELSE IF v.sched = v.prev THEN Go([v EXCEPT !.sched = 0, !.st = "loop"])
         ELSE LET w == [v EXCEPT !.cur = v.sched, !.prev = v.sched, !.sched = 0, !.cb = 1, !.st = "calling"]
              IN <<w, <<Told(w)>>>>

Equivalent(x, y) == y # 0 /\ y # R!Inf /\ (IF x > y THEN x - y ELSE y - x) * 50 < y

Step(o) == Len(ops) < Depth /\ ops' = Append(ops, o)

DoReport(o, id, v0, force) ==
    LET isBest == v0.best = 0 \/ v0.f[id] < v0.f[v0.best]
        v1 == IF isBest THEN [v0 EXCEPT !.best = id, !.former = @ \cup {v0.best}] ELSE v0
        go == id # v0.last /\ (force \/ (isBest /\ (v0.last = 0 \/ ~Equivalent(v0.f[id], v0.f[v0.last]))))
        v2 == IF go THEN [v1 EXCEPT !.last = id, !.sched = id] ELSE v1
        x  == IF v2.st = "idle" THEN Go([v2 EXCEPT !.count = v2.n]) ELSE <<v2, <<>>>>
    IN /\ Step(o) /\ m' = x[1]
       /\ Emit(<<[op |-> "report", id |-> id, s |-> v0.f[id], force |-> force, n |-> v0.n]>> \o x[2]
               \o (IF x[1].st = "calling" THEN <<>> ELSE <<Quiet(x[1])>>))

Best(v) == IF v.best = 0 \/ v.f[v.best] = R!Inf THEN 400 ELSE v.f[v.best]
Rel(rel, b) == CASE rel = "better" -> b - b \div 8 [] rel = "equiv" -> b - b \div 64 [] rel = "worse" -> b + b \div 2
Outside == ~m.dead /\ m.st \in {"idle", "waiting", "hwaiting"}

Report(rel) ==
    /\ Outside
    /\ LET v == [m EXCEPT !.n = @ + 1, !.f = Append(@, Rel(rel, Best(m)))]
       IN DoReport(<<"lone", rel>>, v.n, v, FALSE)
Force == /\ Outside /\ m.best # 0 /\ m.f[m.best] # R!Inf
         /\ DoReport(<<"force", "">>, m.best, m, TRUE)

After(v, E) == LET x == Go(v)
               IN m' = x[1] /\ Emit(E \o x[2] \o (IF x[1].st = "calling" THEN <<>> ELSE <<Quiet(x[1])>>))
Ev(o, k) == <<[op |-> o, kind |-> k]>>
Next_(v) == [v EXCEPT !.st = "next"]
Handler == [op |-> "handler", id |-> m.cur, same |-> TRUE]

Result(o, k) ==     \* of a callback
    CASE k = "none" -> After(Next_(m), Ev(o, k))
      [] k = "complain" -> m' = [m EXCEPT !.st = "handling"] /\ Emit(Ev(o, k) \o <<Handler>>)
      [] k = "fail" -> After([m EXCEPT !.dead = TRUE], Ev(o, k))
HResult(o, k) ==    \* of the complaint handler
    LET f2 == [m.f EXCEPT ![m.cur] = R!Inf]
        left == {x \in m.former \ {0} : f2[x] # R!Inf} \cup {m.best}
        b == CHOOSE x \in left : \A y \in left : f2[x] <= f2[y]
        v == [m EXCEPT !.f = f2, !.best = b]
    IN IF k = "fail" THEN After([v EXCEPT !.dead = TRUE], Ev(o, k)) ELSE After(Next_(v), Ev(o, k))

Answer(k) == /\ m.st = "calling" /\ Step(<<"answer", k>>)
             /\ IF k = "wait" THEN m' = [m EXCEPT !.st = "waiting"] /\ Emit(Ev("ret", k)) ELSE Result("ret", k)
HAnswer(k) == /\ m.st = "handling" /\ Step(<<"hanswer", k>>)
              /\ IF k = "wait" THEN m' = [m EXCEPT !.st = "hwaiting"] /\ Emit(Ev("hret", k)) ELSE HResult("hret", k)
Finish(k) == \/ m.st = "waiting" /\ Step(<<"finish", k>>) /\ Result("fin", k)
             \/ m.st = "hwaiting" /\ k # "complain" /\ Step(<<"finish", k>>) /\ HResult("hfin", k)

Show == /\ Len(ops) = Depth \/ (m.dead /\ Len(ops) < Depth)
        /\ PrintT(<<"BEHAVIOUR", ToJson(ops)>>)
        /\ ops' = [x \in 1..Depth+1 |-> IF x <= Len(ops) THEN ops[x] ELSE <<"end", "">>] /\ UNCHANGED <<s, m, wrong>>

Next == \/ \E r \in {"better", "equiv", "worse"} : Report(r)
        \/ Force
        \/ \E k \in {"none", "wait", "complain", "fail"} : Answer(k)
        \/ \E k \in {"none", "wait", "fail"} : HAnswer(k)
        \/ \E k \in {"none", "complain", "fail"} : Finish(k)
        \/ Show
Spec == Init /\ [][Next]_vars

Accepted == wrong = {}
(* At rest nothing is left to be told. *)
AtRest == m.st = "idle" /\ ~m.dead => m.sched = 0
BestIsBest == m.best # 0 => \A x \in 1..m.n : x \in m.former => m.f[m.best] <= m.f[x]
=============================================================================
