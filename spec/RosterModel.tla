----------------------------- MODULE RosterModel -----------------------------
(***************************************************************************)
(* A history kept as the code keeps it: rows, a list of row numbers in     *)
(* order of fitness, sets of the rows of members and of those never        *)
(* members, and a map from individuals (equal ones chained) to rows. Its   *)
(* contents must always be one of the worlds of Roster. Every sequence of  *)
(* operations is printed for replay.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, NMax

R == INSTANCE Roster

VARIABLES x,        \* row -> record, 0 for a row never used
          k,        \* row numbers in order of fitness
          kp, kn,   \* rows of members, of never members
          map,      \* individual -> rows of equal ones, in order
          total, s, ops
vars == <<x, k, kp, kn, map, total, s, ops>>

Who == {[s |-> 1, v |-> 1], [s |-> 1, v |-> 2], [s |-> 2, v |-> 1]}
Cfg == [nmax |-> NMax, nd |-> 1, sorted |-> <<1>>, pop |-> FALSE]

Init == /\ x = [r \in 0..NMax-1 |-> 0] /\ k = <<>> /\ kp = {} /\ kn = {}
        /\ map = [i \in Who |-> <<>>] /\ total = 0 /\ s = R!InitState(Cfg) /\ ops = <<>>

In(S) == {S[n] : n \in 1..Len(S)}
Free == CHOOSE r \in 0..NMax-1 : r \notin In(k) /\ \A q \in 0..NMax-1 : q < r => q \in In(k)
Without(S, r) == SelectSeq(S, LAMBDA y : y # r)
(* Where a record of fitness f goes among rows S: before the first that is not better. *)
Insert(S, f, r) ==
    LET n == Cardinality({j \in 1..Len(S) : x[S[j]].s < f})
    IN SubSeq(S, 1, n) \o <<r>> \o SubSeq(S, n+1, Len(S))
Do(o) == Len(ops) < Depth /\ ops' = Append(ops, o)
Ev(op, i) == [op |-> op, s |-> i.s, v |-> <<i.v>>]

Write(i, never, K, r, KP, KN) ==
    /\ x' = [x EXCEPT ![r] = i]
    /\ k' = Insert(K, i.s, r)
    /\ kp' = IF never THEN KP ELSE KP \cup {r}
    /\ kn' = IF never THEN KN \cup {r} ELSE KN
    /\ map' = IF never THEN map ELSE [map EXCEPT ![i] = Append(@, r)]
    /\ total' = total + 1

Add(i, never) ==
    /\ Do(<<"addx", <<i.s, i.v, never>>>>)
    /\ s' = R!Apply(s, [op |-> "add", never |-> never, s |-> i.s, v |-> <<i.v>>])
    /\ IF Len(k) < NMax THEN Write(i, never, k, Free, kp, kn)
       ELSE IF In(k) \subseteq kp THEN UNCHANGED <<x, k, kp, kn, map, total>>
       ELSE \E r \in In(k) \ kp : Write(i, never, Without(k, r), r, kp, kn \ {r})
Drop(i) ==
    /\ Do(<<"dropx", <<i.s, i.v>>>>)
    /\ s' = R!Apply(s, Ev("drop", i))
    /\ IF map[i] = <<>> THEN UNCHANGED <<kp, map>>
       ELSE /\ kp' = kp \ {map[i][Len(map[i])]}
            /\ map' = [map EXCEPT ![i] = SubSeq(@, 1, Len(@)-1)]
    /\ UNCHANGED <<x, k, kn, total>>
Purge == /\ Do(<<"purge", "">>) /\ s' = R!Apply(s, [op |-> "purge"])
         /\ k' = SelectSeq(k, LAMBDA r : r \notin kp) /\ kp' = {} /\ map' = [i \in Who |-> <<>>]
         /\ UNCHANGED <<x, kn, total>>
Clear == /\ Do(<<"clear", "">>) /\ s' = R!Apply(s, [op |-> "clear"])
         /\ k' = <<>> /\ kp' = {} /\ kn' = {} /\ map' = [i \in Who |-> <<>>] /\ total' = 0
         /\ UNCHANGED x
Show == /\ Len(ops) = Depth
        /\ PrintT(<<"BEHAVIOUR", ToJson(ops)>>)
        /\ ops' = Append(ops, <<"end", "">>) /\ UNCHANGED <<x, k, kp, kn, map, total, s>>

Next == \/ \E i \in Who, never \in BOOLEAN : Add(i, never)
        \/ \E i \in Who : Drop(i)
        \/ Purge \/ Clear \/ Show
Spec == Init /\ [][Next]_vars

Rows(S) == [n \in 1..Len(S) |-> [s |-> x[S[n]].s, v |-> <<x[S[n]].v>>]]
Seen == [op |-> "quiet", rows |-> Rows(k), len |-> Len(k), total |-> total, labels |-> TRUE,
         pop |-> Rows(SelectSeq(k, LAMBDA r : r \in kp)),
         former |-> Rows(SelectSeq(k, LAMBDA r : r \notin kp /\ r \notin kn)),
         never |-> Rows(SelectSeq(k, LAMBDA r : r \in kn)), members |-> <<>>, confined |-> FALSE]
Accepted == R!Bad(s, Seen) = {}
Disjoint == kp \cap kn = {} /\ kp \cup kn \subseteq In(k) /\ Cardinality(In(k)) = Len(k)
Mapped == \A i \in Who : \A n \in 1..Len(map[i]) : map[i][n] \in kp /\ x[map[i][n]] = i
=============================================================================
