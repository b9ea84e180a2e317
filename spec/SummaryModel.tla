---------------------------- MODULE SummaryModel ----------------------------
(***************************************************************************)
(* Small logs written entry by entry, with what is demanded of a summary:  *)
(* its last row is the best entry, rows get better downwards, none is      *)
(* beyond twice the best, and asking for more columns never loses a        *)
(* column. Each log is printed for replay.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Fits, Vals

S == INSTANCE Summary

VARIABLES log, shown
vars == <<log, shown>>
Names == <<[st |-> "x", n |-> 1], [st |-> "x", n |-> 2]>>
Cfg == [names |-> Names, log |-> log]
Init == log = <<>> /\ shown = FALSE
Star(v) == IF v = 0 THEN 1 ELSE IF v = 50 THEN 2 ELSE 0
Write == /\ ~shown /\ Len(log) < Depth
         /\ \E s \in Fits, a \in Vals, b \in {0, 20} :
              /\ \A k \in 1..Len(log) : log[k].s # s
              /\ log' = Append(log, [s |-> s, v |-> <<a, b>>, st |-> <<Star(a), Star(b)>>])
         /\ UNCHANGED shown
Show == /\ ~shown /\ log # <<>>
        /\ PrintT(<<"BEHAVIOUR", ToJson(log)>>)
        /\ shown' = TRUE /\ UNCHANGED log
Next == Write \/ Show
Spec == Init /\ [][Next]_vars

Cols(args) == S!Asked(Cfg, args)
All == <<[kind |-> "all", st |-> "", a |-> 0, b |-> 0]>>
One == <<[kind |-> "one", st |-> "x", a |-> 1, b |-> 1]>>
E(args) == S!Expected(Cfg, Cols(args))
BestLast == log # <<>> => \A k \in 1..Len(log) : log[E(All)[Len(E(All))]].s <= log[k].s
Downwards == log # <<>> => \A n \in 1..Len(E(All))-1 : log[E(All)[n]].s > log[E(All)[n+1]].s
Within == log # <<>> => \A n \in 1..Len(E(All)) : log[E(All)[n]].s <= 2 * log[E(All)[Len(E(All))]].s
More == Cols(One) \subseteq Cols(All)
Sound == \A args \in {<<>>, One, All} : log # <<>> => E(args) # <<>>
=============================================================================
