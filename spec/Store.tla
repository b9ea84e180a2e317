-------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* Saving and loading populations. One population is in use at a time, and *)
(* what is to be seen of it is a snapshot: its members ([x] all values     *)
(* exactly, [v] in millionths, [s] fitness, [h] as the history would       *)
(* record it), ranking, names, bounds, what its constraints say to some    *)
(* probes, the records of its history and how many there ever were.        *)
(* Events: setup, change, save, load, evolve, abort, each with the         *)
(* snapshot taken after it; a save during a run has one from before it.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

When(cond, name) == IF cond THEN {name} ELSE {}
Range(S) == {S[k] : k \in 1..Len(S)}
Inf == 2000000000

(* cur: what the population in use is known to be, if there is one *)
InitState(c) == [files |-> <<>>, cur |-> [have |-> FALSE], aborted |-> FALSE]
Use(s, snap) == [s EXCEPT !.cur = [have |-> TRUE, snap |-> snap]]

Apply(s, e) ==
    CASE e.op \in {"setup", "change", "evolve"} -> Use(s, e.snap)
      [] e.op = "save"  -> [Use(s, e.snap) EXCEPT !.files = Append(@, e.before)]
      [] e.op = "load"  -> [Use(s, e.snap) EXCEPT !.aborted = FALSE]
      [] e.op = "abort" -> [s EXCEPT !.aborted = TRUE]
      [] e.op = "fresh" -> [s EXCEPT !.cur = [have |-> FALSE], !.aborted = FALSE]
      [] OTHER -> s

Ranked(snap) ==
    LET n == Len(snap.members)
    IN /\ Len(snap.ks) = n /\ Range(snap.ks) = 1..n
       /\ \A j \in 1..(n-1) : snap.members[snap.ks[j]].s <= snap.members[snap.ks[j+1]].s
       /\ n > 0 => snap.members[snap.best].s = snap.members[snap.ks[1]].s

Within(m, bounds) == \A k \in 1..Len(bounds) : m.v[k] >= bounds[k][1] /\ m.v[k] <= bounds[k][2]

(* Snapshot b, of a population loaded, against a, of the one saved *)
Differs(a, b, confine) ==
    When(Len(a.members) # Len(b.members), "C18:Members")
    \cup (IF Len(a.members) # Len(b.members) THEN {}
          ELSE When(\E k \in 1..Len(a.members) : a.members[k].s # b.members[k].s, "C18:Fitness")
               \cup When(~confine /\ \E k \in 1..Len(a.members) : a.members[k].x # b.members[k].x, "C18:Values")
               \cup When(confine /\ \E k \in 1..Len(a.members) :
                            \/ ~Within(b.members[k], b.bounds)
                            \/ Within(a.members[k], b.bounds) /\ a.members[k].x # b.members[k].x, "C18:Confined"))
    \cup When(~Ranked(b), "C18:Ranking")
    \cup When(a.names # b.names \/ a.np # b.np, "C18:Names")
    \cup When(a.set # b.set, "C18:Settings")
    \cup When(~confine /\ a.bounds # b.bounds, "C18:Bounds")
    \cup When(a.cons # b.cons, "C18:Constraints")
    \cup When(a.hist # b.hist \/ a.total # b.total, "C18:History")

(* Snapshot b after a run of some generations that began with a *)
Evolved(s, a, b, e) ==
    When(~e.ended, "C18:RunEnds")
    \cup (IF s.aborted
          THEN When(e.calls # 0 \/ b.members # a.members, "C18:ObeysAbort")
          ELSE When(e.calls = 0, "C18:Evolves")
               \cup (IF Len(a.members) # Len(b.members) THEN {"C18:Members"}
                     ELSE When(\E k \in 1..Len(a.members) :
                                  LET m == a.members[k]
                                      n == b.members[k]
                                  IN m # n /\ (n.s >= m.s \/ ~n.true \/ ~Within(n, b.bounds)), "C18:Resumes")
                          \cup When(\E k \in 1..Len(b.members) :
                                  b.members[k] # a.members[k] /\ b.members[k].h \notin Range(b.hist), "C18:HistoryGoesOn"))
               \cup When(~Ranked(b), "C18:Ranking")
               \cup When(e.told # b.members[b.best].s, "C18:Reports"))

Bad(s, e) ==
    CASE e.op = "save" ->
            When(s.cur.have /\ ~e.during /\ e.before # s.cur.snap, "C18:SeenBefore")
            \cup When(e.before # e.snap, "C18:SavingAlters")
            \cup When(~e.ok, "C18:Saves")
      [] e.op = "load" ->
            IF ~e.ok THEN {"C18:Loads"}
            ELSE Differs(s.files[e.file], e.snap, e.confine)
                 \cup When(e.confine /\ e.snap.bounds # e.bounds, "C18:Bounds")
      [] e.op = "evolve" -> Evolved(s, s.cur.snap, e.snap, e)
      [] e.op = "abort" -> When(e.snap.members # s.cur.snap.members, "C18:AbortAlters")
      [] e.op = "exc"  -> {"C18:Raises"}
      [] e.op = "hang" -> {"C18:Hangs"}
      [] OTHER -> {}
=============================================================================
