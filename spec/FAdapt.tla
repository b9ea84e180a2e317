------------------------------- MODULE FAdapt -------------------------------
(***************************************************************************)
(* The mutation coefficient F of a run: a single value or a lower and an   *)
(* upper limit, reduced and increased as generations succeed or fail.      *)
(* Values are in millionths; comparisons closer than rounding can tell     *)
(* apart may go either way.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

When(cond, name) == IF cond THEN {name} ELSE {}
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y) == Abs(x - y) <= 3

(* Configuration c: seq (a range rather than a single value), lo, hi as given,
   cr (hundredths), np, adaptive as asked for, crit: the critical value. *)
Square(c) == (1000000 \div (200 * c.np)) * (200 - c.cr)   \* of the critical value, in millionths
CriticalOK(c) == LET t == c.crit \div 1000 IN Abs(t * t - Square(c)) <= 4 * t + 400

Zero(c) == c.seq /\ c.lo = 0
Adaptive(c) == c.adaptive /\ ~Zero(c)
Lo0(c) == IF Zero(c) THEN c.crit ELSE c.lo

InitState(c) == [c |-> c, lo |-> Lo0(c), hi |-> c.hi, limited |-> FALSE]

ScaleLo(c) == 89
ScaleHi == 87

Same(s, e) == Near(e.lo, s.lo) /\ Near(e.hi, s.hi)

(* How a reduction may go. *)
DownLo(s) == (s.lo * ScaleLo(s.c)) \div 100
DownHi(s) == (s.hi * ScaleHi) \div 100
CanDownLo(s) == DownLo(s) > s.c.crit - 3
MustDownLo(s) == DownLo(s) > s.c.crit + 3
CanDownHi(s) == s.c.seq /\ DownHi(s) > 3 * s.lo - 9
MustDownHi(s) == s.c.seq /\ DownHi(s) > 3 * s.lo + 9

LoweredLo(s, e) == /\ Near(e.lo, DownLo(s))
                   /\ IF s.c.seq THEN Near(e.hi, s.hi) ELSE Near(e.hi, e.lo)
                   /\ e.limited = s.limited
LoweredHi(s, e) == Near(e.lo, s.lo) /\ Near(e.hi, DownHi(s)) /\ e.limited = s.limited
Stuck(s, e) == Same(s, e) /\ e.limited

BadDown(s, e) ==
    IF ~Adaptive(s.c) THEN When(~Same(s, e) \/ e.limited, "C11:NotAdaptive")
    ELSE When(~( \/ CanDownLo(s) /\ LoweredLo(s, e)
                 \/ ~MustDownLo(s) /\ CanDownHi(s) /\ LoweredHi(s, e)
                 \/ ~MustDownLo(s) /\ ~MustDownHi(s) /\ Stuck(s, e) ), "C11:Reduction")
         \cup When(e.lo <= s.c.crit - 3 /\ e.lo < s.lo - 3, "C11:AboveCritical")

RaisedHi(s, e) == e.hi > s.hi /\ e.hi <= s.c.hi + 1 /\ Near(e.lo, s.lo)
RaisedLo(s, e) == /\ e.lo > s.lo /\ e.lo <= Lo0(s.c) + 1
                  /\ IF s.c.seq THEN Near(e.hi, s.hi) ELSE Near(e.hi, e.lo)

BadUp(s, e) ==
    IF ~Adaptive(s.c) THEN When(~Same(s, e) \/ e.limited, "C11:NotAdaptive")
    ELSE When(e.limited, "C11:Unlimited")
         \cup When(~( \/ s.c.seq /\ s.hi < s.c.hi /\ RaisedHi(s, e)
                      \/ (s.c.seq => s.hi >= s.c.hi - 3) /\ s.lo < Lo0(s.c) /\ RaisedLo(s, e)
                      \/ (s.c.seq => s.hi >= s.c.hi - 3) /\ s.lo >= Lo0(s.c) - 3 /\ Same(s, e) ),
                   "C11:Increase")

BadAny(s, e) ==
    When(e.lo > Lo0(s.c) + 3 \/ e.hi > s.c.hi + 3, "C11:OriginalRange")
    \cup When(e.lo > e.hi + 3, "C11:Ordered")

Bad(s, e) ==
    CASE e.op = "new"  -> When(~Same(s, e) \/ e.limited, "C11:Start") \cup When(~CriticalOK(s.c), "C11:Critical")
      [] e.op = "down" -> BadDown(s, e) \cup BadAny(s, e)
      [] e.op = "up"   -> BadUp(s, e) \cup BadAny(s, e)
      [] e.op = "get"  -> When(e.f < s.lo - 3 \/ e.f > s.hi + 3, "C11:DrawnBetween")
      [] e.op = "exc"  -> {"C11:Raises"}
      [] e.op = "hang" -> {"C11:Hangs"}
      [] OTHER -> {}

Apply(s, e) ==
    IF e.op \in {"new", "down", "up"} THEN [s EXCEPT !.lo = e.lo, !.hi = e.hi, !.limited = e.limited] ELSE s
=============================================================================
