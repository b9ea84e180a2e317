-------------------------------- MODULE Plots --------------------------------
(***************************************************************************)
(* What is plotted of the records of a history: values of parameters       *)
(* versus fitness, one subplot for each parameter, and correlated pairs of *)
(* parameters versus each other, with a line fitted to them.               *)
(*                                                                         *)
(* Records are in ascending order of fitness s; v has the values and l     *)
(* says whether the record is of a member ("pop"), a former one ("old") or *)
(* one that never was ("never"). All numbers are small and whole. Fitted   *)
(* lines are in thousandths, correlation in hundredths.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

When(cond, name) == IF cond THEN {name} ELSE {}
Abs(x) == IF x < 0 THEN -x ELSE x
Least(a, b) == IF a < b THEN a ELSE b
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : Count(p, p[i]) = Count(q, p[i])
RECURSIVE Concat(_)
Concat(Q) == IF Q = <<>> THEN <<>> ELSE Head(Q) \o Concat(Tail(Q))

(* Configuration c: order (the parameters in order of their names), recs. *)
InitState(c) == [c |-> c]
Apply(s, e) == s

-----------------------------------------------------------------------------
(* Values versus fitness. The ratio is in halves. *)
Asked(c, e) == IF e.slice THEN SubSeq(c.order, e.a + 1, e.b)
               ELSE IF e.args = <<>> THEN c.order ELSE e.args
Points(c, e, j, label) ==
    LET R == SelectSeq(c.recs, LAMBDA r : r.l = label /\ 2 * r.s <= e.ratio * c.recs[1].s)
    IN [k \in 1..Len(R) |-> [s |-> R[k].s, v |-> R[k].v[j]]]
BadLine(c, e, S, n, label, name) ==
    When(Len(S.lines) >= n /\ ~SameBag(S.lines[n], Points(c, e, S.title, label)), name)
BadPlot(c, e) ==
    LET S == Concat(e.figs)
        asked == Asked(c, e)
    IN IF e.failed THEN {"C34:Fails"}
       ELSE IF [k \in 1..Len(S) |-> S[k].title] # asked THEN {"C34:Subplots"}
       ELSE UNION {   BadLine(c, e, S[k], 1, "pop", "C34:Members")
                 \cup BadLine(c, e, S[k], 2, "old", "C34:Former")
                 \cup BadLine(c, e, S[k], 3, "never", "C34:Never")
                 \cup When(Len(S[k].lines) # (IF e.inpop THEN 1 ELSE 3), "C34:Lines")
                 \cup When(Cardinality({S[k].colors[n] : n \in 1..Len(S[k].colors)}) # Len(S[k].colors), "C34:Told apart")
                 \cup When(S[k].log # e.log, "C34:Scale") : k \in 1..Len(S) }
            \cup When(\E k \in 1..Len(e.figs) : \A n \in 1..Len(e.figs[k]) : ~e.figs[k][n].xl, "C34:Axis")
            \cup When(\E k \in 1..Len(e.figs) : e.figs[k] = <<>> \/ Len(e.figs[k]) > 9, "C34:Figures")

(* Files get the name given, then numbers from 2 on. *)
BadFiles(c, e) ==
    IF e.failed THEN {"C34:Fails"}
    ELSE When(e.got # [k \in 1..e.n |-> k], "C34:FileNames")
         \cup When(\E k \in 1..Len(e.sizes) : e.sizes[k].w # e.w \/ (e.h # 0 /\ e.sizes[k].h # e.h), "C34:Size")

-----------------------------------------------------------------------------
(* Correlation. For parameters i and j of n records, Cov is n^2 times their *)
(* covariance.                                                             *)
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n-1)
Cov(R, i, j) ==
    LET n == Len(R)
    IN n * Sum([k \in 1..n |-> R[k].v[i] * R[k].v[j]], n)
       - Sum([k \in 1..n |-> R[k].v[i]], n) * Sum([k \in 1..n |-> R[k].v[j]], n)
Sq(x) == x * x
(* The correlation of pair p is no stronger than that of q. *)
Weaker(R, p, q) ==
    Sq(Cov(R, p[1], p[2])) * (Cov(R, q[1], q[1]) * Cov(R, q[2], q[2]))
    <= Sq(Cov(R, q[1], q[2])) * (Cov(R, p[1], p[1]) * Cov(R, p[2], p[2]))
Pairs(c, name) == {<<i, j>> \in (1..Len(c.order)) \X (1..Len(c.order)) : i < j /\ (name = 0 \/ name \in {i, j})}
Ordered(x, y) == IF x < y THEN <<x, y>> ELSE <<y, x>>
(* A coefficient r, in hundredths, rounded somehow. *)
RightR(R, i, j, r) ==
    LET cv == Cov(R, i, j)  vv == Cov(R, i, i) * Cov(R, j, j)  a == Abs(r)
    IN /\ (cv > 0 => r >= 0) /\ (cv < 0 => r <= 0)
       /\ Sq(100 * cv) <= Sq(a + 1) * vv
       /\ (a > 0 => Sq(a - 1) * vv <= Sq(100 * cv))

(* The line is fitted to the best half of the records and the next one.     *)
(* The weight of an error is 2 best / (s + best), so that it counts, squared,*)
(* 16 for the best fitness, 4 for three times, 1 for seven times that.      *)
Fitted(R) == SubSeq(R, 1, Least(Len(R), Len(R) \div 2 + 1))
Weight(R, k) == LET q == R[k].s \div R[1].s IN CASE q = 1 -> 16 [] q = 3 -> 4 [] q = 7 -> 1 [] OTHER -> 0
Judged(R, x) == /\ \A k \in 1..Len(R) : R[k].s % R[1].s = 0 /\ Weight(R, k) > 0
                /\ \E k \in 1..Len(R) : R[k].v[x] # R[1].v[x]
RightLine(R, x, y, m, b) ==
    LET n == Len(R)
        err == [k \in 1..n |-> Weight(R, k) * (1000 * R[k].v[y] - m * R[k].v[x] - b)]
        off == [k \in 1..n |-> Weight(R, k) * (R[k].v[x] + 1)]     \* by rounding
    IN /\ Abs(Sum(err, n)) <= Sum(off, n)
       /\ Abs(Sum([k \in 1..n |-> err[k] * R[k].v[x]], n)) <= Sum([k \in 1..n |-> off[k] * R[k].v[x]], n)

(* Points: those of the best 70% at least, of no others than records, and a *)
(* better record never less prominent than a worse one.                     *)
Plotted(S, R, k) == {n \in 1..Len(S.pts) : S.pts[n].x = R[k].v[S.x] /\ S.pts[n].y = R[k].v[S.y]}
Alone(S, R, k) == \A j \in 1..Len(R) : j = k \/ R[j].v[S.x] # R[k].v[S.x] \/ R[j].v[S.y] # R[k].v[S.y]
Must(R, k, frac) == IF frac THEN 10 * (R[k].s - R[1].s) < 7 * (R[Len(R)].s - R[1].s)
                    ELSE k - 1 <= (7 * Len(R)) \div 10
Largest(S, R, k) == LET P == Plotted(S, R, k)
                    IN IF P = {} THEN 0 ELSE CHOOSE z \in {S.pts[n].z : n \in P} : \A n \in P : S.pts[n].z <= z
BadPoints(S, R, frac) ==
    When(\E n \in 1..Len(S.pts) : ~\E k \in 1..Len(R) : n \in Plotted(S, R, k), "C35:StrayPoints")
    \cup When(\E k \in 1..Len(R) : Must(R, k, frac) /\ Plotted(S, R, k) = {}, "C35:MissingPoints")
    \cup When(\E j, k \in 1..Len(R) : /\ R[j].s < R[k].s /\ Alone(S, R, j) /\ Alone(S, R, k)
                                      /\ Largest(S, R, j) < Largest(S, R, k), "C35:Prominence")
BadSub(c, S, frac) ==
    LET F == Fitted(c.recs)
        lo == CHOOSE v \in {F[k].v[S.x] : k \in 1..Len(F)} : \A k \in 1..Len(F) : v <= F[k].v[S.x]
        hi == CHOOSE v \in {F[k].v[S.x] : k \in 1..Len(F)} : \A k \in 1..Len(F) : v >= F[k].v[S.x]
    IN BadPoints(S, c.recs, frac)
       \cup (IF ~Judged(F, S.x) THEN {} ELSE
             When(~RightLine(F, S.x, S.y, S.m, S.b), "C35:LineText")
             \cup When(S.line # [x1 |-> lo, x2 |-> hi, y1 |-> S.line.y1, y2 |-> S.line.y2], "C35:LineEnds")
             \cup When(Abs(S.line.y1 - (S.m * lo + S.b)) > 8 \/ Abs(S.line.y2 - (S.m * hi + S.b)) > 8, "C35:LineDrawn"))

BadCorr(c, e) ==
    LET S == e.subs
        P == [k \in 1..Len(S) |-> Ordered(S[k].x, S[k].y)]
        shown == {P[k] : k \in 1..Len(P)}
        all == Pairs(c, e.name)
    IN IF e.failed THEN {"C35:Fails"}
       ELSE IF \E k \in 1..Len(S) : P[k] \notin all THEN {"C35:Pairs"}
       ELSE When(Cardinality(shown) # Len(P), "C35:PairTwice")
            \cup When(Cardinality(shown) # Least(e.n, Cardinality(all)), "C35:HowMany")
            \cup When(\E k \in 1..Len(P)-1 : ~Weaker(c.recs, P[k+1], P[k]), "C35:StrongestFirst")
            \cup When(P # <<>> /\ \E p \in all \ shown : ~Weaker(c.recs, p, P[Len(P)]), "C35:Strongest")
            \cup When(\E k \in 1..Len(S) : ~RightR(c.recs, S[k].x, S[k].y, S[k].r), "C35:Coefficient")
            \cup When(e.verbose /\ [k \in 1..Len(e.lines) |-> e.lines[k]]
                      # [k \in 1..Len(S) |-> [x |-> S[k].x, y |-> S[k].y, r |-> S[k].r, m |-> S[k].m, b |-> S[k].b]],
                      "C35:PrintedLines")
            \cup When(~e.verbose /\ e.lines # <<>>, "C35:PrintedLines")
            \cup UNION {BadSub(c, S[k], FALSE) : k \in 1..Len(S)}

BadXY(c, e) ==
    IF e.failed THEN {"C35:Fails"}
    ELSE When(e.sub.x # e.x \/ e.sub.y # e.y, "C35:Axes")
         \cup When(\/ e.ret.x # e.sub.x \/ e.ret.y # e.sub.y          \* but for rounding of the text
                   \/ Abs(e.ret.m - e.sub.m) > 1 \/ Abs(e.ret.b - e.sub.b) > 1, "C35:Returned")
         \cup (IF e.sub.x = e.x /\ e.sub.y = e.y THEN BadSub(c, e.sub, e.frac) ELSE {})

Bad(s, e) ==
    CASE e.op = "plot"  -> BadPlot(s.c, e)
      [] e.op = "files" -> BadFiles(s.c, e)
      [] e.op = "corr"  -> BadCorr(s.c, e)
      [] e.op = "xy"    -> BadXY(s.c, e)
      [] e.op = "exc"   -> {"C34:Raises", "C35:Raises"}
      [] e.op = "hang"  -> {"C34:Hangs", "C35:Hangs"}
      [] OTHER -> {}
=============================================================================
