-------------------------------- MODULE Viewer --------------------------------
(***************************************************************************)
(* Showing image files by an external viewer. The configuration has the    *)
(* programs in order of preference, each with its name, whether it is      *)
(* installed, and its options, which may have the file's name within       *)
(* (pre, post), and the files with name and path. Processes are numbers.   *)
(* Next to each file there may be a record of a process, 0 if none or      *)
(* nonsense.                                                               *)
(*                                                                         *)
(* Events: make (an object that watches a file), written (the object has   *)
(* been told, once or more, that its file was written to), ended (the      *)
(* viewer it started, with an error printed or not), left (a record left   *)
(* by an earlier run), died (the process of such a record), stop (the end  *)
(* of the program). Those that can make an object start viewers have what  *)
(* was started, the records then, and whether anything was logged.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

When(cond, name) == IF cond THEN {name} ELSE {}

InitState(c) == [c |-> c, objs |-> <<>>, alive |-> {}, record |-> [f \in 1..Len(c.files) |-> 0]]

(* The next program installed, after the k-th one. 0 if there is none. *)
NextOne(c, k) ==
    LET P == {i \in (k+1)..Len(c.programs) : c.programs[i].there}
    IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j
Option(c, f, o) == IF o.named THEN o.pre \o c.files[f].name \o o.post ELSE o.pre
Arguments(c, f, i) ==
    LET o == c.programs[i].opts
    IN <<c.programs[i].name>> \o [k \in 1..Len(o) |-> Option(c, f, o[k])] \o <<c.files[f].path>>

Running(s, f) == s.record[f] \in s.alive
Due(s, x) == x.phase = "watching" /\ ~Running(s, x.f)
(* What is to be started on the event, and whether that is to be tried *)
Tries(s, e) == LET x == s.objs[e.o] IN IF e.op = "written" THEN Due(s, x) ELSE e.err
Wanted(s, e) ==
    LET x == s.objs[e.o] IN IF ~Tries(s, e) THEN 0 ELSE NextOne(s.c, IF e.op = "written" THEN 0 ELSE x.at)

BadStart(s, e) ==
    LET x == s.objs[e.o]
        want == Wanted(s, e)
        complains == ~x.quiet /\ Tries(s, e) /\ (e.op = "ended" \/ want = 0)
    IN When(want # 0 /\ e.spawned = <<>>, "C40:NotStarted")
       \cup When(want # 0 /\ Len(e.spawned) > 1, "C40:StartedTwice")
       \cup When(want = 0 /\ e.spawned # <<>> /\ e.op = "written" /\ x.phase = "watching" /\ Running(s, x.f), "C40:AlreadyRunning")
       \cup When(want = 0 /\ e.spawned # <<>> /\ ~(e.op = "written" /\ x.phase = "watching" /\ Running(s, x.f)), "C40:StartedAgain")
       \cup When(want # 0 /\ e.spawned # <<>> /\ e.spawned[1].i # want, "C40:FirstInstalled")
       \cup When(want # 0 /\ e.spawned # <<>> /\ e.spawned[1].i = want /\ e.spawned[1].args # Arguments(s.c, x.f, want), "C40:Arguments")
       \cup When(\E k \in 1..Len(e.spawned) : ~e.spawned[k].env, "C40:Environment")
       \cup When(\E f \in 1..Len(e.record) : e.record[f] # (IF f = x.f /\ e.spawned # <<>> THEN e.spawned[Len(e.spawned)].p ELSE s.record[f]),
                 "C40:Recorded")
       \cup When(complains /\ ~e.logged, "C40:NoComplaint")
       \cup When(~complains /\ e.logged /\ x.phase # "none", "C40:Complaint")
BadMake(s, e) ==
    When(e.before = -1 /\ e.after # 0, "C40:Created") \cup When(e.before # -1 /\ e.after # e.before, "C40:Touched")

Bad(s, e) ==
    CASE e.op = "make" -> BadMake(s, e)
      [] e.op \in {"written", "ended"} -> BadStart(s, e)
      [] e.op = "stop" -> When(e.watching # 0, "C40:StillWatching") \cup When(e.spawned # <<>>, "C40:StartedAgain")
      [] e.op = "exc"  -> {"C40:Raises"}
      [] e.op = "hang" -> {"C40:Hangs"}
      [] OTHER -> {}

(* What was started is taken as it was *)
After(s, e) ==
    LET x == s.objs[e.o]
        old == IF e.op = "ended" THEN {x.p} ELSE {}
        n == Len(e.spawned)
        y == IF n > 0 THEN [x EXCEPT !.phase = "showing", !.at = e.spawned[n].i, !.p = e.spawned[n].p]
             ELSE IF Tries(s, e) THEN [x EXCEPT !.phase = "none"]
             ELSE IF e.op = "ended" THEN [x EXCEPT !.phase = "done"] ELSE x
    IN [s EXCEPT !.objs[e.o] = y, !.record = e.record,
                 !.alive = (@ \ old) \cup {e.spawned[k].p : k \in 1..n}]
Apply(s, e) ==
    CASE e.op = "make" -> [s EXCEPT !.objs = Append(@, [f |-> e.f, quiet |-> e.quiet, phase |-> "watching", at |-> 0, p |-> 0])]
      [] e.op \in {"written", "ended"} -> After(s, e)
      [] e.op = "left" -> [s EXCEPT !.record[e.f] = e.p, !.alive = IF e.alive THEN @ \cup {e.p} ELSE @]
      [] e.op = "died" -> [s EXCEPT !.alive = @ \ {e.p}]
      [] OTHER -> s
=============================================================================
