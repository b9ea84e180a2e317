----------------------------- MODULE LocksModel -----------------------------
(***************************************************************************)
(* Locks as queues, one for each index, that a request joins all at once.  *)
(* What they do must satisfy Locks, and as long as holders release nobody  *)
(* waits for ever. Behaviours are printed for replay.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, N

L == INSTANCE Locks

VARIABLES queue,    \* index -> requests, the first of which holds it
          want,     \* request -> indices
          held, gone, s, wrong, ops
vars == <<queue, want, held, gone, s, wrong, ops>>

Init == /\ queue = [k \in 0..N-1 |-> <<>>] /\ want = <<>> /\ held = {} /\ gone = {}
        /\ s = L!InitState([n |-> N]) /\ wrong = {} /\ ops = <<>>
Do(o) == Len(ops) < Depth /\ ops' = Append(ops, o)

RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SetToSeq(S \ {m})
Granted(q, w, h, g) == {r \in 1..Len(w) : r \notin h /\ r \notin g /\ \A k \in w[r] : Head(q[k]) = r}
RECURSIVE Put(_, _, _)
Put(t, bad, E) == IF E = <<>> THEN <<t, bad>> ELSE Put(L!Apply(t, Head(E)), bad \cup L!Bad(t, Head(E)), Tail(E))
Emit(E) == LET x == Put(s, wrong, E) IN s' = x[1] /\ wrong' = x[2]
Grants(S) == LET q == SetToSeq(S) IN [n \in 1..Len(q) |-> [op |-> "grant", id |-> q[n]]]
Quiet == <<[op |-> "quiet"]>>

Lock(ix) ==
    /\ Do(<<"lock", SetToSeq(ix)>>)
    /\ want' = Append(want, ix)
    /\ queue' = [k \in 0..N-1 |-> IF k \in ix THEN Append(queue[k], Len(want) + 1) ELSE queue[k]]
    /\ LET G == Granted(queue', want', held, gone)
       IN /\ held' = held \cup G
          /\ Emit(<<[op |-> "lock", id |-> Len(want) + 1, ix |-> SetToSeq(ix)]>> \o Grants(G) \o Quiet)
    /\ UNCHANGED gone
Release(r) ==
    /\ r \in held /\ Do(<<"release", <<r>>>>)
    /\ queue' = [k \in 0..N-1 |-> IF k \in want[r] THEN Tail(queue[k]) ELSE queue[k]]
    /\ gone' = gone \cup {r} /\ UNCHANGED want
    /\ LET G == Granted(queue', want, held \ {r}, gone')
       IN /\ held' = (held \ {r}) \cup G
          /\ Emit(<<[op |-> "release", id |-> r]>> \o Grants(G) \o Quiet)
Show == /\ Len(ops) = Depth
        /\ PrintT(<<"BEHAVIOUR", ToJson(ops)>>)
        /\ ops' = Append(ops, <<"end", <<>>>>) /\ UNCHANGED <<queue, want, held, gone, s, wrong>>
Next == \/ \E ix \in SUBSET (0..N-1) : ix # {} /\ Lock(ix)
        \/ \E r \in held : Release(r)
        \/ Show
Spec == Init /\ [][Next]_vars

Accepted == wrong = {}
Exclusive == \A a, b \in held : a # b => want[a] \cap want[b] = {}
SomeoneHolds == Cardinality(gone) < Len(want) => held # {}
=============================================================================
