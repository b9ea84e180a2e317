----------------------------- MODULE ViewerModel -----------------------------
(***************************************************************************)
(* Up to two objects watching one file, and viewers they start, which may  *)
(* end with an error or without, and an earlier run's viewer. There never  *)
(* is more than one viewer. Objects that don't look at the record (Blind), *)
(* or go on watching once they have started a viewer (Eager), are not      *)
(* accepted. Behaviours are printed for replay.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Blind, Eager
V == INSTANCE Viewer

Cfgs == {[programs |-> [k \in 1..Len(T) |-> [name |-> "v", there |-> T[k], opts |-> <<>>]],
          files |-> <<[name |-> "f", path |-> "f"]>>] : T \in {<<TRUE>>, <<FALSE, TRUE>>, <<TRUE, TRUE>>, <<FALSE>>}}

VARIABLES s, watching, shows, at, record, alive, made, ok, ops
vars == <<s, watching, shows, at, record, alive, made, ok, ops>>

Init == /\ \E c \in Cfgs : s = V!InitState(c)
        /\ watching = <<>> /\ shows = <<>> /\ at = <<>> /\ record = 0 /\ alive = {} /\ made = 0 /\ ok = TRUE /\ ops = <<>>
More == Len(ops) < Depth
Do(e) == s' = V!Apply(s, e) /\ ok' = (V!Bad(s, e) = {})
Note(o) == ops' = Append(ops, o)

Make == /\ Len(watching) < 2
        /\ watching' = Append(watching, TRUE) /\ shows' = Append(shows, 0) /\ at' = Append(at, 0)
        /\ Do([op |-> "make", f |-> 1, quiet |-> FALSE, before |-> -1, after |-> 0])
        /\ Note([op |-> "make"]) /\ UNCHANGED <<record, alive, made>>
Left == /\ alive = {} /\ shows = <<>>
        /\ \E up \in BOOLEAN :
             /\ made' = made + 1 /\ record' = made + 1 /\ alive' = IF up THEN {made + 1} ELSE {}
             /\ Do([op |-> "left", f |-> 1, p |-> made + 1, alive |-> up])
             /\ Note([op |-> "left", alive |-> up])
        /\ UNCHANGED <<watching, shows, at>>
Died == \E p \in alive :
        /\ \A o \in DOMAIN shows : shows[o] # p
        /\ alive' = alive \ {p} /\ Do([op |-> "died", p |-> p]) /\ Note([op |-> "died"])
        /\ UNCHANGED <<watching, shows, at, record, made>>
Start(o, k, e) ==
    LET i == V!NextOne(s.c, k)
    IN IF i = 0
       THEN /\ watching' = [watching EXCEPT ![o] = FALSE] /\ shows' = [shows EXCEPT ![o] = 0]
            /\ alive' = alive \ {shows[o]} /\ UNCHANGED <<at, record, made>>
            /\ Do(e @@ [spawned |-> <<>>, record |-> <<record>>, logged |-> TRUE])
       ELSE /\ watching' = [watching EXCEPT ![o] = Eager] /\ shows' = [shows EXCEPT ![o] = made + 1]
            /\ at' = [at EXCEPT ![o] = i] /\ made' = made + 1 /\ record' = made + 1
            /\ alive' = (alive \ {shows[o]}) \cup {made + 1}
            /\ Do(e @@ [spawned |-> <<[i |-> i, p |-> made + 1, args |-> V!Arguments(s.c, 1, i), env |-> TRUE]>>,
                        record |-> <<made + 1>>, logged |-> e.op = "ended"])
Written == \E o \in DOMAIN watching :
        /\ Note([op |-> "written", o |-> o])
        /\ LET e == [op |-> "written", o |-> o]
           IN IF watching[o] /\ (Blind \/ record \notin alive) THEN Start(o, 0, e)
              ELSE /\ Do(e @@ [spawned |-> <<>>, record |-> <<record>>, logged |-> FALSE])
                   /\ UNCHANGED <<watching, shows, at, record, alive, made>>
Ended == \E o \in DOMAIN shows : \E err \in BOOLEAN :
        /\ shows[o] \in alive
        /\ Note([op |-> "ended", o |-> o, err |-> err])
        /\ LET e == [op |-> "ended", o |-> o, err |-> err]
           IN IF err THEN Start(o, at[o], e)
              ELSE /\ Do(e @@ [spawned |-> <<>>, record |-> <<record>>, logged |-> FALSE])
                   /\ alive' = alive \ {shows[o]} /\ shows' = [shows EXCEPT ![o] = 0]
                   /\ UNCHANGED <<watching, at, record, made>>
Show == /\ Len(ops) = Depth
        /\ PrintT(<<"BEHAVIOUR", ToJson([there |-> [k \in 1..Len(s.c.programs) |-> s.c.programs[k].there], ops |-> ops])>>)
        /\ Note([op |-> "end"]) /\ UNCHANGED <<s, watching, shows, at, record, alive, made, ok>>
Next == (More /\ (Make \/ Left \/ Died \/ Written \/ Ended)) \/ Show
Spec == Init /\ [][Next]_vars

Accepted == ok
OneViewer == Cardinality(alive) <= 1
=============================================================================
