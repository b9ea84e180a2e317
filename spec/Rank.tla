-------------------------------- MODULE Rank --------------------------------
(***************************************************************************)
(* The members of a population as a list, their ranking, and samples of    *)
(* their indices. Members are numbers with a fitness. Events change the    *)
(* list (set, push, blacklist, blank, load); see has all that can be seen  *)
(* of it and of its ranking; sample and draws have sampled indices (from   *)
(* 0, as the code counts).                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Inf == 2000000000
When(cond, name) == IF cond THEN {name} ELSE {}

(* State: m, the possible lists of members (push may choose among equally bad). *)
InitState(c) == [c |-> c, m |-> {c.members}]

Worst(L) == {k \in 1..Len(L) : \A j \in 1..Len(L) : L[j].s <= L[k].s}
Changed(L, e) ==
    CASE e.op = "set"   -> {[L EXCEPT ![e.k + 1] = e.i]}
      [] e.op = "push"  -> {[L EXCEPT ![k] = e.i] : k \in Worst(L)}
      [] e.op = "blacklist" -> {[k \in 1..Len(L) |-> IF L[k].id = e.id THEN [L[k] EXCEPT !.s = Inf] ELSE L[k]]}
      [] e.op = "list"  -> {e.members}
      [] OTHER -> {L}
Apply(s, e) == IF e.op = "see" THEN [s EXCEPT !.m = {e.members}]
               ELSE [s EXCEPT !.m = UNION {Changed(L, e) : L \in @}]

-----------------------------------------------------------------------------
Ids(L) == [k \in 1..Len(L) |-> L[k].id]
Range(S) == {S[k] : k \in 1..Len(S)}
Perm(S, n) == Len(S) = n /\ Range(S) = 0..n-1
Sorted(L, K) == \A j \in 1..Len(K)-1 : L[K[j]+1].s <= L[K[j+1]+1].s

BadSee(s, e) ==
    LET L == e.members
        n == Len(L)
    IN IF L \notin s.m THEN {"C20:Members"}
       ELSE When(e.len # n \/ e.iter # Ids(L) \/ e.truth # (n > 0) \/ e.index # Ids(L), "C20:Sequence")
            \cup When(e.contains # [k \in 1..Len(e.contains) |-> TRUE] \/ e.strange, "C20:Contains")
            \cup (IF n = 0 THEN When(e.best # 0, "C20:Best")
                  ELSE When(~Perm(e.ks, n), "C20:IndicesAreAll")
                       \cup (IF Perm(e.ks, n)
                             THEN When(~Sorted(L, e.ks), "C20:Order")
                                  \cup When(e.sorted # [j \in 1..n |-> L[e.ks[j]+1].id], "C20:ListsAgree")
                                  \cup When(e.kbest \notin 0..n-1 \/ e.kbest # e.ks[1], "C20:BestIndex")
                                  \cup When(e.kbest \in 0..n-1 /\ e.best # L[e.kbest+1].id, "C20:Best")
                             ELSE {}))

(* Samples. base8: base randomness in eighths, 0 off, 8 fully on. *)
Allowed(L, e) == {k \in 0..Len(L)-1 : k \notin Range(e.excl)}
Better(L, A, k) == Cardinality({j \in A : L[j+1].s < L[k+1].s})
(* How many of n ranked candidates can occur. *)
Eligible(e, n) == IF e.base8 = 0 THEN 1
                  ELSE IF e.base8 >= 4 THEN n ELSE (2*e.base8*n + 7) \div 8
Refusable(e, n) == e.base8 > 8 \/ e.n > Eligible(e, n) \/ n = 0

BadSample(L, e) ==
    LET A == Allowed(L, e)
        n == Cardinality(A)
    IN IF e.refused THEN When(~Refusable(e, n), "C19:Refused")
       ELSE IF Refusable(e, n) THEN {"C19:Impossible"}
       ELSE When(Len(e.got) # e.n \/ Cardinality(Range(e.got)) # e.n, "C19:Distinct")
            \cup When(\E k \in Range(e.got) : k \notin 0..Len(L)-1, "C19:Valid")
            \cup When(\E k \in Range(e.got) : k \in Range(e.excl), "C19:Excluded")
            \cup When(e.base8 = 0 /\ \E k \in Range(e.got) \cap A : Better(L, A, k) > 0, "C19:Best")
            \cup When(e.base8 < 4 /\ \E k \in Range(e.got) \cap A : Better(L, A, k) >= Eligible(e, n), "C19:Fraction")

(* Many draws of one index: count[k+1] of index k. All fitness values differ. *)
BadDraws(L, e) ==
    LET A == Allowed(L, e)
        n == Cardinality(A)
        c(k) == e.count[k+1]
        fewer(k, j) == c(j) > c(k) /\ (c(j) - c(k)) * (c(j) - c(k)) > 36 * (c(j) + c(k) + 1)
    IN When(\E k \in 0..Len(L)-1 : k \notin A /\ c(k) > 0, "C19:Excluded")
       \cup When(e.base8 = 8 /\ \E k \in A : c(k) = 0, "C19:AllCanOccur")
       \cup When(e.base8 < 4 /\ \E k \in A : c(k) > 0 /\ Better(L, A, k) >= Eligible(e, n), "C19:Fraction")
       \cup When(\E k, j \in A : L[k+1].s < L[j+1].s /\ fewer(k, j), "C19:WorseMoreLikely")
       \cup When(e.base8 = 8 /\ \E k, j \in A : fewer(k, j), "C19:Uniform")
       \cup When(e.base8 \in 1..5 /\ n > 2 /\ \E k, j \in A : Better(L, A, k) = 0 /\ Better(L, A, j) = n-1 /\ c(k) <= c(j),
                 "C19:NoBias")

Bad(s, e) ==
    CASE e.op = "see" -> BadSee(s, e)
      [] e.op = "sample" -> IF \E L \in s.m : BadSample(L, e) = {} THEN {} ELSE BadSample(CHOOSE L \in s.m : TRUE, e)
      [] e.op = "draws"  -> IF \E L \in s.m : BadDraws(L, e) = {} THEN {} ELSE BadDraws(CHOOSE L \in s.m : TRUE, e)
      [] e.op = "exc"  -> {"C19:Raises", "C20:Raises"}
      [] e.op = "hang" -> {"C19:Hangs", "C20:Hangs"}
      [] OTHER -> {}
=============================================================================
