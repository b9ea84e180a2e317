------------------------------- MODULE Async -------------------------------
(***************************************************************************)
(* The concurrency design of one generation of asynchronous differential   *)
(* evolution: a challenge for every target index, issued in index order,   *)
(* each queueing on the FIFO lock of its target, base and two difference   *)
(* members.  A challenge that heads all four of its queues reads the four  *)
(* members, releases all but its target, evaluates, decides, and releases  *)
(* the target.  Evaluations finish in any order, also while later          *)
(* challenges are still being issued (synchronous evaluation), and the     *)
(* whole thing may be aborted at any point.                                *)
(*                                                                         *)
(* What is established: the members read are exactly those that a run      *)
(* taking the targets one at a time would read (SequentialReads), which is *)
(* a refinement of sequential evolution; locks are exclusive; nothing      *)
(* deadlocks; every generation ends.                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Np,        \* number of members
          Gens,      \* number of generations
          Abortable  \* whether an abort may happen

VARIABLES gen,    \* generation under way
          issued, \* challenges issued so far in this generation
          need,   \* need[t]: indices challenge t has to lock
          queue,  \* queue[k]: challenges queued on index k, head first
          phase,  \* phase[t]: "idle", "waiting", "evaluating", "done"
          seen,   \* seen[t]: versions of the members challenge t read
          ver,    \* ver[k]: version of the member at k (bumped by replacement)
          ver0,   \* ver at the start of the generation
          dec,    \* dec[t]: version at t once its challenge was decided
          aborted

vars == <<gen, issued, need, queue, phase, seen, ver, ver0, dec, aborted>>

T == 1..Np
NoSeen == [k \in {} |-> 0]

Init ==
    /\ gen = 1
    /\ issued = 0
    /\ need = [t \in T |-> {}]
    /\ queue = [k \in T |-> <<>>]
    /\ phase = [t \in T |-> "idle"]
    /\ seen = [t \in T |-> NoSeen]
    /\ ver = [k \in T |-> 0]
    /\ ver0 = ver
    /\ dec = ver
    /\ aborted = FALSE

Heads(q, t) == \A k \in need[t] : q[k] # <<>> /\ Head(q[k]) = t

(* Target, base and two difference members: four distinct indices. *)
LockSets(t) == { S \cup {t} : S \in { X \in SUBSET (T \ {t}) : Cardinality(X) = 3 } }

Issue ==
    /\ ~aborted
    /\ issued < Np
    /\ LET t == issued + 1
       IN \E S \in LockSets(t) :
            /\ need' = [need EXCEPT ![t] = S]
            /\ queue' = [k \in T |-> IF k \in S THEN Append(queue[k], t) ELSE queue[k]]
            /\ phase' = [phase EXCEPT ![t] = "waiting"]
            /\ issued' = t
    /\ UNCHANGED <<gen, seen, ver, ver0, dec, aborted>>

(* A challenge that holds all its locks reads and at once gives up all but
   the lock of its target. *)
Grant(t) ==
    /\ ~aborted
    /\ phase[t] = "waiting"
    /\ Heads(queue, t)
    /\ seen' = [seen EXCEPT ![t] = [k \in need[t] |-> ver[k]]]
    /\ queue' = [k \in T |-> IF k \in need[t] \ {t} THEN Tail(queue[k]) ELSE queue[k]]
    /\ phase' = [phase EXCEPT ![t] = "evaluating"]
    /\ UNCHANGED <<gen, issued, need, ver, ver0, dec, aborted>>

(* The challenger's constraints failed or its evaluation gave a result. *)
Finish(t) ==
    /\ ~aborted
    /\ phase[t] = "evaluating"
    /\ \E won \in BOOLEAN :
         ver' = [ver EXCEPT ![t] = IF won THEN ver[t] + 1 ELSE ver[t]]
    /\ dec' = [dec EXCEPT ![t] = ver'[t]]
    /\ queue' = [queue EXCEPT ![t] = Tail(queue[t])]
    /\ phase' = [phase EXCEPT ![t] = "done"]
    /\ UNCHANGED <<gen, issued, need, seen, ver0, aborted>>

NextGen ==
    /\ ~aborted
    /\ issued = Np
    /\ \A t \in T : phase[t] = "done"
    /\ gen < Gens
    /\ gen' = gen + 1
    /\ issued' = 0
    /\ need' = [t \in T |-> {}]
    /\ phase' = [t \in T |-> "idle"]
    /\ seen' = [t \in T |-> NoSeen]
    /\ ver' = [k \in T |-> 0]      \* versions count from the generation's start
    /\ ver0' = ver'
    /\ dec' = ver'
    /\ UNCHANGED <<queue, aborted>>

(* Aborting releases every lock and turns every challenge away unread. *)
Abort ==
    /\ Abortable
    /\ ~aborted
    /\ aborted' = TRUE
    /\ queue' = [k \in T |-> <<>>]
    /\ phase' = [t \in T |-> "done"]
    /\ UNCHANGED <<gen, issued, need, seen, ver, ver0, dec>>

Over == aborted \/ (gen = Gens /\ issued = Np /\ \A t \in T : phase[t] = "done")
Stay == Over /\ UNCHANGED vars

Next == Issue \/ NextGen \/ Abort \/ (\E t \in T : Grant(t) \/ Finish(t)) \/ Stay

Fairness == /\ WF_vars(Issue)
            /\ WF_vars(NextGen)
            /\ \A t \in T : WF_vars(Grant(t)) /\ WF_vars(Finish(t))

Spec == Init /\ [][Next]_vars /\ Fairness

-----------------------------------------------------------------------------
(* The lock of an index is held by at most one challenge, and a reader or
   decider holds what it touches. *)
Exclusive ==
    \A t \in T : phase[t] = "evaluating" /\ ~aborted =>
        queue[t] # <<>> /\ Head(queue[t]) = t

(* Requests that share an index are queued in the order they were made. *)
Fair == \A k \in T : \A i, j \in 1..Len(queue[k]) : i < j => queue[k][i] < queue[k][j]

(* What challenge t read: members at lower indices as decided in this
   generation, members at higher indices as the generation began. *)
SequentialReads ==
    \A t \in T : phase[t] \in {"evaluating", "done"} =>
        \A k \in DOMAIN seen[t] :
            seen[t][k] = IF k < t THEN dec[k] ELSE ver0[k]

(* A lower member is decided before it is read. *)
DecidedBeforeRead ==
    \A t \in T : phase[t] \in {"evaluating", "done"} =>
        \A k \in DOMAIN seen[t] : k < t => phase[k] = "done"

NoLocksLeft == (Over \/ (issued = Np /\ \A t \in T : phase[t] = "done")) =>
                  \A k \in T : queue[k] = <<>>

(* Somebody can always move until it is over. *)
NoDeadlock == Over \/ ENABLED (Issue \/ NextGen \/ \E t \in T : Grant(t) \/ Finish(t))

(* A challenge that is held up has an earlier one in its way: one under
   evaluation is in the way of those using the member it challenges, one held
   up itself of those sharing a member with it. *)
InTheWay(u, t) ==
    /\ u < t
    /\ \/ phase[u] = "evaluating" /\ u \in need[t]
       \/ phase[u] = "waiting" /\ need[u] \cap need[t] # {}
NoNeedlessWait ==
    ~aborted => \A t \in T : phase[t] = "waiting" /\ ~Heads(queue, t) => \E u \in T : InTheWay(u, t)

Terminates == <>Over
=============================================================================
