------------------------------ MODULE Readable ------------------------------
(***************************************************************************)
(* How parameter values are printed: each parameter once, in order of the  *)
(* names, as name and value, with one star if the value is less than 5% of *)
(* the way from its lower to its upper bound and two if more than 95%. A   *)
(* population is printed as a table of its best individuals.               *)
(*                                                                         *)
(* Events: values (printed with got: a sequence of [k, v, st], parameter,  *)
(* value and stars), table, names (iterated over), unity (values between   *)
(* the bounds as fractions, in 64ths, and back again).                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Inf == 2000000000
When(cond, name) == IF cond THEN {name} ELSE {}

(* Configuration c: lo, hi, order (the parameters in order of their names). *)
InitState(c) == [c |-> c]
Apply(s, e) == s

(* The numbers of stars that a value may have: exactly at 5% both will do. *)
Stars(lo, hi, v) ==
    LET x == 20 * (v - lo)  w == hi - lo
    IN CASE x < w      -> {1}
         [] x = w      -> {0, 1}
         [] x > 19*w   -> {2}
         [] x = 19*w   -> {0, 2}
         [] OTHER      -> {0}
Right(c, g, v) == g.v = v[g.k] /\ g.st \in Stars(c.lo[g.k], c.hi[g.k], v[g.k])
Listed(c, got) == [k \in 1..Len(got) |-> got[k].k] = c.order

Ascending(S) == \A k \in 1..Len(S)-1 : S[k] <= S[k+1]
Least(a, b) == IF a < b THEN a ELSE b
(* The columns are members, the best ones, each at most once. *)
Fits(S, k) == S[k].s
Better(M, n) == {k \in 1..Len(M) : Cardinality({j \in 1..Len(M) : M[j].s < M[k].s}) < n}
Times(S, x) == Cardinality({k \in 1..Len(S) : S[k] = x})
BadTable(c, e) ==
    LET n == Least(7, Len(e.members))
        plain == [k \in 1..Len(e.cols) |-> [s |-> e.cols[k].s, v |-> [j \in 1..Len(c.lo) |->
                     LET p == CHOOSE p \in 1..Len(e.cols[k].got) : e.cols[k].got[p].k = j IN e.cols[k].got[p].v]]]
        best == CHOOSE k \in 1..Len(e.members) : \A j \in 1..Len(e.members) : e.members[k].s <= e.members[j].s
        worst == CHOOSE k \in 1..Len(e.members) : \A j \in 1..Len(e.members) : e.members[k].s >= e.members[j].s
    IN IF e.members = <<>> THEN When(~e.empty, "C32:Empty")
       ELSE IF e.empty \/ Len(e.cols) # n THEN {"C32:Columns"}
       ELSE IF \E k \in 1..n : ~Listed(c, e.cols[k].got) THEN {"C32:Rows"}
       ELSE When(~Ascending([k \in 1..n |-> e.cols[k].s]), "C32:BestFirst")
            \cup When(\E k \in 1..n : \/ Times(plain, plain[k]) > Times(e.members, plain[k])
                                      \/ ~\E j \in Better(e.members, n) : e.members[j] = plain[k], "C32:Members")
            \cup When(\E k \in 1..n, p \in 1..Len(c.order) :
                        ~Right(c, e.cols[k].got[p], plain[k].v), "C32:TableStars")
            \cup When(e.n # Len(e.members) \/ e.top # n \/ e.min # e.members[best].s \/ e.max # e.members[worst].s,
                      "C32:Heading")
            \cup When(e.best.s # e.members[best].s \/ ~Listed(c, e.best.got)
                      \/ \A j \in 1..Len(e.members) :
                           \/ e.members[j].s # e.best.s
                           \/ \E p \in 1..Len(c.order) : ~Right(c, e.best.got[p], e.members[j].v), "C32:Best")

Bad(s, e) ==
    CASE e.op = "values" ->
            When(e.odd, "C32:Text")
            \cup (IF ~Listed(s.c, e.got) THEN {"C32:Listed"}
                  ELSE When(\E k \in 1..Len(e.got) : e.got[k].v # e.v[e.got[k].k], "C32:Value")
                       \cup When(\E k \in 1..Len(e.got) : e.got[k].st \notin
                            Stars(s.c.lo[e.got[k].k], s.c.hi[e.got[k].k], e.v[e.got[k].k]), "C32:Stars"))
            \cup When(e.wide > 120, "C32:TooWide")
      [] e.op = "table" -> When(e.odd, "C32:TableText") \cup BadTable(s.c, e)
      [] e.op = "names" -> When(e.got # s.c.order \/ ~e.agree, "C32:Names")
      [] e.op = "unity" ->
            When(\E k \in 1..Len(e.v) : e.to[k] * (s.c.hi[k] - s.c.lo[k]) # 64 * (e.v[k] - s.c.lo[k]), "C32:ToFraction")
            \cup When(e.back # e.v, "C32:FromFraction")
      [] e.op = "exc"  -> {"C32:Raises"}
      [] e.op = "hang" -> {"C32:Hangs"}
      [] OTHER -> {}
=============================================================================
