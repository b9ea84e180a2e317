------------------------------ MODULE StopModel ------------------------------
(***************************************************************************)
(* The stopping rules as a machine: generations that improve or not, F     *)
(* shrinking and growing in a few steps, the count of futile generations.  *)
(* Prints each sequence of generations for replay.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxGen, Dwells, Steps      \* Steps: reductions possible at the start

VARIABLES dwell, bitter, goal, gens, room, futile, over
vars == <<dwell, bitter, goal, gens, room, futile, over>>

Init == /\ dwell \in Dwells /\ bitter \in BOOLEAN /\ goal \in BOOLEAN
        /\ gens = <<>> /\ room = Steps /\ futile = 0 /\ over = "no"

Min(a, b) == IF a < b THEN a ELSE b
Gen(kind) ==
    /\ over = "no" /\ Len(gens) < MaxGen
    /\ gens' = Append(gens, kind)
    /\ LET good == kind = "better" \/ Len(gens) = 0
           limited == ~good /\ room = 0
           count == IF good THEN 0 ELSE IF limited THEN futile + 1 ELSE futile
       IN /\ room' = IF good THEN Min(room + 1, Steps) ELSE IF room > 0 THEN room - 1 ELSE 0
          /\ futile' = IF bitter THEN 0 ELSE count
          /\ over' = IF kind = "goal" THEN "goal"
                     ELSE IF ~bitter /\ count > dwell THEN "futile"
                     ELSE IF Len(gens') = MaxGen THEN "max" ELSE "no"
    /\ UNCHANGED <<dwell, bitter, goal>>
Show == /\ over \notin {"no", "shown"}
        /\ PrintT(<<"BEHAVIOUR", ToJson([dwell |-> dwell, bitter |-> bitter, goal |-> goal, maxgen |-> MaxGen,
                                         gens |-> gens, over |-> over])>>)
        /\ over' = "shown" /\ UNCHANGED <<dwell, bitter, goal, gens, room, futile>>
Next == Gen("better") \/ Gen("worse") \/ (goal /\ Gen("goal")) \/ Show
Spec == Init /\ [][Next]_vars

FutileNeedsRun == over = "futile" =>
    \A k \in 0..dwell : Len(gens) > k /\ gens[Len(gens) - k] = "worse" /\ Len(gens) - k > 1
Bounded == futile <= dwell + 1
=============================================================================
