-------------------------------- MODULE Locks --------------------------------
(***************************************************************************)
(* Locks on the indices of a population. Events: lock (a request, by       *)
(* number, for a set of indices), grant, refuse, release (of all that a    *)
(* request was granted), abort, quiet (nothing more happens by itself).    *)
(* A request may be granted once every earlier request for any of its      *)
(* indices has been released, and then is, at once.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

When(cond, name) == IF cond THEN {name} ELSE {}

(* q: requests made and not released, in order; r.st is "waiting" or "held". *)
InitState(c) == [c |-> c, q |-> <<>>, aborted |-> FALSE, old |-> {}]

Range(S) == {S[k] : k \in 1..Len(S)}
At(s, id) == {k \in 1..Len(s.q) : s.q[k].id = id}
Clear(s, k) == \A j \in 1..k-1 : s.q[j].ix \cap s.q[k].ix = {}
Without(q, id) == SelectSeq(q, LAMBDA r : r.id # id)

Apply(s, e) ==
    CASE e.op = "lock" -> IF s.aborted THEN [s EXCEPT !.q = Append(@, [id |-> e.id, ix |-> {}, st |-> "waiting"])]
                          ELSE [s EXCEPT !.q = Append(@, [id |-> e.id, ix |-> Range(e.ix), st |-> "waiting"])]
      [] e.op = "refuse" -> [s EXCEPT !.q = Without(@, e.id)]
      [] e.op = "grant"  -> [s EXCEPT !.q = [k \in 1..Len(@) |-> IF @[k].id = e.id THEN [@[k] EXCEPT !.st = "held"] ELSE @[k]]]
      [] e.op = "release" -> [s EXCEPT !.q = Without(@, e.id)]
      \* What is held is released, so that what waited for it is next
      [] e.op = "abort"  -> [s EXCEPT !.aborted = TRUE,
                                      !.q = SelectSeq(@, LAMBDA r : r.st = "waiting")]
      [] OTHER -> s

Bad(s, e) ==
    CASE e.op = "grant" ->
            LET K == At(s, e.id)
            IN IF K = {} THEN {"C21:NotRequested"}
               ELSE LET k == CHOOSE k \in K : TRUE
                    IN When(s.q[k].st = "held", "C21:GrantedTwice")
                       \cup When(~s.aborted /\ \E j \in 1..k-1 : s.q[j].st = "held" /\ s.q[j].ix \cap s.q[k].ix # {},
                                 "C21:Exclusive")
                       \cup When(~s.aborted /\ \E j \in 1..k-1 : s.q[j].st = "waiting" /\ s.q[j].ix \cap s.q[k].ix # {},
                                 "C21:Order")
                       \cup When(~s.aborted /\ \E j \in k+1..Len(s.q) : s.q[j].st = "held" /\ s.q[j].ix \cap s.q[k].ix # {},
                                 "C21:Exclusive")
      [] e.op = "refuse" -> When(~e.twice, "C21:Refused")
      [] e.op = "quiet" ->
            When(\E k \in 1..Len(s.q) : s.q[k].st = "waiting" /\ Clear(s, k),
                 IF s.aborted THEN "C21:AbortGrants" ELSE "C21:NotGranted")
      [] e.op = "asked" -> When(e.twice /\ ~e.refused /\ ~s.aborted, "C21:TwiceAccepted")
      [] e.op = "locked" -> When(Len(s.q) = 0 /\ e.n > 0, "C21:StaysLocked")
      [] e.op = "exc"  -> {"C21:Raises"}
      [] e.op = "hang" -> {"C21:Hangs"}
      [] OTHER -> {}
=============================================================================
