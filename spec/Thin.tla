-------------------------------- MODULE Thin --------------------------------
(***************************************************************************)
(* What a full history gives up to take in another record: one of the two  *)
(* most alike among the records of non-members. How far two records are    *)
(* apart is the sum of the squared differences of fitness and of each      *)
(* parameter, each relative to its variance among those records, divided   *)
(* by the mean fitness of the two, so that of pairs equally close the one  *)
(* with the worse fitness is thinned out.                                  *)
(*                                                                         *)
(* Events: add (requested), seen (all records with their labels once that  *)
(* is done). Variances are n^2 times what they are, and distances are      *)
(* multiplied by all variances, so that all numbers are whole.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

When(cond, name) == IF cond THEN {name} ELSE {}
Range(S) == {S[k] : k \in 1..Len(S)}

(* Configuration c: nmax records at most, nd parameters. *)
InitState(c) == [c |-> c, recs |-> <<>>, new |-> <<>>]

Times(S, x) == Cardinality({k \in 1..Len(S) : S[k] = x})
Col(r, j) == IF j = 0 THEN r.s ELSE r.v[j]
RECURSIVE Sum(_, _, _, _)
Sum(S, j, power, k) == IF k = 0 THEN 0
    ELSE (IF power = 1 THEN Col(S[k], j) ELSE Col(S[k], j) * Col(S[k], j)) + Sum(S, j, power, k-1)
Variance(S, j) == Len(S) * Sum(S, j, 2, Len(S)) - Sum(S, j, 1, Len(S)) * Sum(S, j, 1, Len(S))
Spread(S, nd) == [j \in 0..nd |-> IF Variance(S, j) = 0 THEN 1 ELSE Variance(S, j)]

RECURSIVE Product(_, _)
Product(V, J) == IF J = {} THEN 1 ELSE LET j == CHOOSE j \in J : TRUE IN V[j] * Product(V, J \ {j})
RECURSIVE Apart(_, _, _, _)
Apart(V, a, b, j) ==
    IF j < 0 THEN 0
    ELSE (Col(a, j) - Col(b, j)) * (Col(a, j) - Col(b, j)) * Product(V, DOMAIN V \ {j}) + Apart(V, a, b, j-1)

(* The records of non-members that may go: sequence S of those. Within two percent
   of the least distance is as good, as fitness never seen in the population counts
   for slightly less, and for rounding. *)
Pairs(S) == {p \in (1..Len(S)) \X (1..Len(S)) : p[1] < p[2]}
Expendable(S, nd) ==
    IF Len(S) <= 1 THEN Range(S)
    ELSE LET V == Spread(S, nd)
             top == [p \in Pairs(S) |-> Apart(V, S[p[1]], S[p[2]], nd)]
             low(p) == S[p[1]].s + S[p[2]].s
             near(p, q) == 50 * top[p] * low(q) <= 51 * top[q] * low(p)
             P == {p \in Pairs(S) : \A q \in Pairs(S) : near(p, q)}
         IN {S[p[1]] : p \in P} \cup {S[p[2]] : p \in P}

(* If two are the same, nothing is more alike, whatever the variances. For many
   records, that's all that is judged. *)
Same(S) == {S[p[1]] : p \in {q \in Pairs(S) : S[q[1]].s = S[q[2]].s /\ S[q[1]].v = S[q[2]].v}}
           \cup {S[p[2]] : p \in {q \in Pairs(S) : S[q[1]].s = S[q[2]].s /\ S[q[1]].v = S[q[2]].v}}
MayGo(S, nd) == IF Len(S) <= 7 THEN Expendable(S, nd) ELSE IF Same(S) = {} THEN Range(S) ELSE Same(S)

Rest(recs) == SelectSeq(recs, LAMBDA r : r.l # "pop")
Plain(r) == [s |-> r.s, v |-> r.v]

-----------------------------------------------------------------------------
Apply(s, e) ==
    CASE e.op = "add"  -> [s EXCEPT !.new = <<[s |-> e.s, v |-> e.v, l |-> e.l]>>]
      [] e.op = "seen" -> [s EXCEPT !.recs = e.recs, !.new = <<>>]
      [] OTHER -> s

BadSeen(s, e) ==
    IF s.new = <<>> \/ Len(s.recs) < s.c.nmax \/ Rest(s.recs) = <<>> THEN {}
    ELSE LET was == s.recs \o s.new
             gone == {r \in Range(was) : Times(was, r) > Times(e.recs, r)}
         IN IF Len(e.recs) # Len(s.recs) \/ Cardinality(gone) # 1 THEN {"C30:OneGoes"}
            ELSE When(~(gone \subseteq Range(Rest(s.recs))), "C30:NotAMember")
                 \cup When(~(gone \subseteq MayGo(Rest(s.recs), s.c.nd)), "C30:MostAlike")

Bad(s, e) ==
    CASE e.op = "seen" -> BadSeen(s, e)
      [] e.op = "exc"  -> {"C30:Raises"}
      [] e.op = "hang" -> {"C30:Hangs"}
      [] OTHER -> {}
=============================================================================
