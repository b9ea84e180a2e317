------------------------------- MODULE FModel -------------------------------
(***************************************************************************)
(* The documented rule for F in thousandths, for every sequence of at most *)
(* Depth reductions and increases from each of a set of configurations.    *)
(* Each sequence is printed, to be replayed into the implementation.       *)
(***************************************************************************)
EXTENDS FAdapt, Json

CONSTANT Depth

RECURSIVE Root(_, _)
Root(n, r) == IF r * r > n THEN Root(n, r - 1) ELSE r
Cfg(seq, lo, hi, cr, np) ==
    [seq |-> seq, lo |-> lo, hi |-> hi, cr |-> cr, np |-> np,
     crit |-> Root((1000000 \div (200 * np)) * (200 - cr), 1000)]
Configs == { Cfg(FALSE, 500, 500, 80, 20), Cfg(FALSE, 900, 900, 80, 4), Cfg(FALSE, 120, 120, 50, 40),
             Cfg(TRUE, 500, 1000, 80, 20), Cfg(TRUE, 200, 1000, 80, 20), Cfg(TRUE, 180, 1200, 20, 60),
             Cfg(TRUE, 0, 1000, 80, 20), Cfg(TRUE, 130, 420, 80, 50), Cfg(TRUE, 50, 600, 90, 100) }

VARIABLES c, lo, hi, limited, ops
vars == <<c, lo, hi, limited, ops>>

Crit == c.crit
Low == IF c.seq /\ c.lo = 0 THEN Crit ELSE c.lo
Frozen == c.seq /\ c.lo = 0

Init == /\ c \in Configs
        /\ lo = Low /\ hi = c.hi /\ limited = FALSE /\ ops = <<>>

Reduce ==
    IF Frozen THEN UNCHANGED <<lo, hi, limited>>
    ELSE IF (lo * 89) \div 100 > Crit
         THEN /\ lo' = (lo * 89) \div 100
              /\ hi' = IF c.seq THEN hi ELSE lo'
              /\ UNCHANGED limited
    ELSE IF c.seq /\ (hi * 87) \div 100 > 3 * lo
         THEN hi' = (hi * 87) \div 100 /\ UNCHANGED <<lo, limited>>
    ELSE limited' = TRUE /\ UNCHANGED <<lo, hi>>

Min(a, b) == IF a < b THEN a ELSE b
Increase ==
    IF Frozen THEN UNCHANGED <<lo, hi, limited>>
    ELSE /\ limited' = FALSE
         /\ IF c.seq /\ hi < c.hi THEN hi' = Min((hi * 1130) \div 1000, c.hi) /\ UNCHANGED lo
            ELSE IF lo < c.lo THEN /\ lo' = Min((lo * 1108) \div 1000, c.lo)
                                   /\ hi' = IF c.seq THEN hi ELSE lo'
            ELSE UNCHANGED <<lo, hi>>

Down == Len(ops) < Depth /\ Reduce /\ ops' = Append(ops, "down") /\ UNCHANGED c
Up == Len(ops) < Depth /\ Increase /\ ops' = Append(ops, "up") /\ UNCHANGED c
Show == /\ Len(ops) = Depth
         /\ PrintT(<<"BEHAVIOUR", ToJson([cfg |-> c, ops |-> ops])>>)
         /\ ops' = Append(ops, "end") /\ UNCHANGED <<c, lo, hi, limited>>

Next == Down \/ Up \/ Show
Spec == Init /\ [][Next]_vars

InRange == lo <= Low /\ hi <= c.hi /\ lo <= hi
NeverCritical == lo < Low => lo > Crit
LimitedMeans == limited => (lo * 89) \div 100 <= Crit /\ (c.seq => (hi * 87) \div 100 <= 3 * lo)
Idle == Frozen => lo = Low /\ hi = c.hi /\ ~limited
=============================================================================
