------------------------------ MODULE StoreModel ------------------------------
(***************************************************************************)
(* A population of two members with one parameter, saved and loaded along  *)
(* with everything that it refers to. A save that keeps a reference to the *)
(* members (Refer) is not accepted. Values are in millionths, the fitness  *)
(* is the value.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Refer
S == INSTANCE Store

VARIABLES s, pop, files, running, ok, ops
vars == <<s, pop, files, running, ok, ops>>

None == [m |-> <<>>, b |-> <<0, 9>>, h |-> <<>>]
Init == s = S!InitState(0) /\ pop = None /\ files = <<>> /\ running = FALSE /\ ok = TRUE /\ ops = <<>>

Member(x) == [x |-> ToString(x), v |-> <<x>>, s |-> x, h |-> ToString(x), true |-> TRUE]
(* A member that was confined has kept its fitness *)
Conf(m, b) == IF m.v[1] > b[2] THEN [m EXCEPT !.v[1] = b[2], !.x = ToString(b[2]), !.h = "none", !.true = FALSE] ELSE m
Best(m) == IF m[1].s <= m[2].s THEN 1 ELSE 2
Snap(p) == [members |-> p.m, best |-> IF p.m = <<>> THEN 0 ELSE Best(p.m), names |-> <<"a">>, np |-> 2, set |-> <<>>,
            ks |-> IF p.m = <<>> THEN <<>> ELSE IF Best(p.m) = 1 THEN <<1, 2>> ELSE <<2, 1>>,
            bounds |-> <<p.b>>, cons |-> <<>>, hist |-> p.h, total |-> Len(p.h)]
Do(e, op) == s' = S!Apply(s, e) /\ ok' = (S!Bad(s, e) = {}) /\ ops' = Append(ops, op)
More == Len(ops) < Depth

Setup == /\ More /\ pop.m = <<>>
         /\ \E x, y \in {3, 7} :
               LET p == [m |-> <<Member(x), Member(y)>>, b |-> <<0, 9>>, h |-> <<ToString(x), ToString(y)>>]
               IN pop' = p /\ Do([op |-> "setup", snap |-> Snap(p)], "setup")
         /\ running' = TRUE /\ UNCHANGED files
Kept(p) == IF Refer THEN [p EXCEPT !.m = <<>>] ELSE p
Save == /\ More
        /\ files' = Append(files, Kept(pop))
        /\ Do([op |-> "save", during |-> FALSE, ok |-> TRUE, before |-> Snap(pop), snap |-> Snap(pop)], "save")
        /\ UNCHANGED <<pop, running>>
Restored(f) == IF Refer /\ pop.m # <<>> THEN [f EXCEPT !.m = pop.m] ELSE f
Load == /\ More
        /\ \E n \in 1..Len(files), c \in BOOLEAN :
              LET f == Restored(files[n])
                  p == IF c THEN [f EXCEPT !.b = <<0, 5>>, !.m = [k \in 1..Len(@) |-> Conf(@[k], <<0, 5>>)]] ELSE f
              IN /\ pop' = p
                 /\ Do([op |-> "load", file |-> n, ok |-> TRUE, confine |-> c, bounds |-> << <<0, 5>> >>, snap |-> Snap(p)],
                       IF c THEN "confine" ELSE "load")
        /\ running' = TRUE /\ UNCHANGED files
Abort == /\ More /\ running /\ pop.m # <<>>
         /\ running' = FALSE /\ Do([op |-> "abort", snap |-> Snap(pop)], "abort") /\ UNCHANGED <<pop, files>>
Evolve == /\ More /\ pop.m # <<>>
          /\ IF running
             THEN \E k \in 1..2, x \in 1..2 :
                    LET p == IF x < pop.m[k].s THEN [pop EXCEPT !.m[k] = Member(x), !.h = Append(@, ToString(x))] ELSE pop
                    IN /\ pop' = p
                       /\ Do([op |-> "evolve", ended |-> TRUE, calls |-> 2, told |-> p.m[Best(p.m)].s, snap |-> Snap(p)], "evolve")
             ELSE /\ pop' = pop
                  /\ Do([op |-> "evolve", ended |-> TRUE, calls |-> 0, told |-> 0, snap |-> Snap(pop)], "evolve")
          /\ UNCHANGED <<files, running>>
Show == /\ Len(ops) = Depth
        /\ PrintT(<<"BEHAVIOUR", ToJson(ops)>>)
        /\ ops' = Append(ops, "end") /\ UNCHANGED <<s, pop, files, running, ok>>
Next == Setup \/ Save \/ Load \/ Abort \/ Evolve \/ Show
Spec == Init /\ [][Next]_vars
Accepted == ok
=============================================================================
