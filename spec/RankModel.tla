------------------------------ MODULE RankModel ------------------------------
(***************************************************************************)
(* A member list with a ranking that is computed when asked for and kept   *)
(* until something changes, and changes in every order, with looks in      *)
(* between. What is seen must satisfy Rank. Behaviours are printed for     *)
(* replay.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT Depth

R == INSTANCE Rank

N == 3
VARIABLES list, ranking, new, s, ops
vars == <<list, ranking, new, s, ops>>

First == [k \in 1..N |-> [id |-> k, s |-> R!Inf]]
Init == list = First /\ ranking = <<>> /\ new = N /\ s = R!InitState([members |-> First]) /\ ops = <<>>
Do(o) == Len(ops) < Depth /\ ops' = Append(ops, o)

(* Any ranking by fitness. *)
Rankings(L) == {K \in [1..N -> 0..N-1] : R!Perm(K, N) /\ R!Sorted(L, K)}
See(L, K) == [op |-> "see", members |-> L, len |-> N, iter |-> R!Ids(L), index |-> R!Ids(L), truth |-> TRUE,
              contains |-> <<TRUE>>, strange |-> FALSE, ks |-> K, sorted |-> [j \in 1..N |-> L[K[j]+1].id],
              kbest |-> K[1], best |-> L[K[1]+1].id]

Change(o, e, L) == Do(o) /\ list' = L /\ ranking' = <<>> /\ s' = R!Apply(s, e)
Set(k, f) == /\ new' = new + 1
             /\ LET i == [id |-> new+1, s |-> f]
                IN Change(<<"set", <<k, f>>>>, [op |-> "set", k |-> k, i |-> i], [list EXCEPT ![k+1] = i])
Push(f) == /\ new' = new + 1
           /\ LET i == [id |-> new+1, s |-> f]
              IN \E K \in (IF ranking = <<>> THEN Rankings(list) ELSE {ranking}) :
                    Change(<<"push", <<0, f>>>>, [op |-> "push", i |-> i], [list EXCEPT ![K[N]+1] = i])
Blacklist(k) == /\ UNCHANGED new
                /\ Change(<<"blacklist", <<k, 0>>>>, [op |-> "blacklist", id |-> list[k+1].id],
                          [list EXCEPT ![k+1].s = R!Inf])
Look == /\ Do(<<"look", <<0, 0>>>>)
        /\ ranking' \in (IF ranking = <<>> THEN Rankings(list) ELSE {ranking})
        /\ s' = R!Apply(s, See(list, ranking')) /\ UNCHANGED <<list, new>>
Show == /\ Len(ops) = Depth
        /\ PrintT(<<"BEHAVIOUR", ToJson(ops)>>)
        /\ ops' = Append(ops, <<"end", <<0, 0>>>>) /\ UNCHANGED <<list, ranking, new, s>>

Next == \/ \E k \in 0..N-1, f \in {1, 2} : Set(k, f)
        \/ \E f \in {1, 2, 3} : Push(f)
        \/ \E k \in 0..N-1 : Blacklist(k)
        \/ Look \/ Show
Spec == Init /\ [][Next]_vars

Accepted == ranking # <<>> => R!Bad(s, See(list, ranking)) = {}
Possible == list \in s.m
=============================================================================
