-------------------------------- MODULE Indiv --------------------------------
(***************************************************************************)
(* Individuals, numbered in the order made. Values are in 64ths, fitness   *)
(* is [k, x]: k = "num" (x in 64ths), "none", "nan" or "inf".              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

When(cond, name) == IF cond THEN {name} ELSE {}
Inf == 2000000000
Fit(f) == IF f.k = "num" /\ f.x >= 0 THEN f.x ELSE Inf
NoFit == [k |-> "none", x |-> 0]

InitState(c) == [names |-> c.names, lo |-> c.lo, hi |-> c.hi, all |-> <<>>, hashes |-> {}]

(* Bounds are in 64ths, too. Values out of bounds are reflected, then clipped. *)
Limit(x, lo, hi) ==
    LET y == IF x < lo THEN 2*lo - x ELSE x
        z == IF y > hi THEN 2*hi - y ELSE y
    IN IF z < lo THEN lo ELSE IF z > hi THEN hi ELSE z
Limited(s, v) == [k \in 1..Len(v) |-> Limit(v[k], s.lo[k], s.hi[k])]
(* From quarters of the range, and as 4096ths of it; ranges are 2, 4, 8 or 16. *)
FromQuarters(s, u) == [k \in 1..Len(u) |-> s.lo[k] + ((s.hi[k] - s.lo[k]) \div 4) * u[k]]
Fractions(s, v) == [k \in 1..Len(v) |-> (v[k] - s.lo[k]) * (4096 \div (s.hi[k] - s.lo[k]))]

Ind(v, f) == [v |-> v, f |-> f]
Map2(a, b, Op(_, _)) == [k \in 1..Len(a) |-> Op(a[k], b[k])]

(* What a new individual is made of *)
Made(s, e) ==
    LET I(n) == s.all[n]
        plus(x, y) == x + y
        minus(x, y) == x - y
    IN CASE e.how = "new"  -> Ind(e.v, NoFit)
         [] e.how \in {"copy", "pickle"} -> I(e.a)
         [] e.how \in {"spawn", "from values"} -> Ind(e.v, NoFit)
         [] e.how = "from quarters" -> Ind(FromQuarters(s, e.v), NoFit)
         [] e.how = "add"  -> Ind(Map2(I(e.a).v, I(e.b).v, plus), NoFit)
         [] e.how = "sub"  -> Ind(Map2(I(e.a).v, I(e.b).v, minus), NoFit)
         (* by half of e.f *)
         [] e.how = "mul"  -> Ind([k \in 1..Len(I(e.a).v) |-> (I(e.a).v[k] * e.f) \div 2], NoFit)

Apply(s, e) ==
    CASE e.op = "make"   -> [s EXCEPT !.all = Append(@, Made(s, e))]
      [] e.op = "score"  -> [s EXCEPT !.all[e.a].f = e.f]
      [] e.op = "item"   -> [s EXCEPT !.all[e.a].v[e.k] = e.x]
      [] e.op = "limit"  -> [s EXCEPT !.all[e.a].v = Limited(s, @)]
      [] e.op = "update" -> IF Len(e.v) = Len(s.names) THEN [s EXCEPT !.all[e.a].v = e.v] ELSE s
      [] e.op = "read"   -> [s EXCEPT !.hashes = @ \cup {[v |-> s.all[e.a].v, f |-> Fit(s.all[e.a].f), h |-> e.hash]}]
      [] OTHER -> s

Same(i, j) == i.v = j.v /\ Fit(i.f) = Fit(j.f)
Range(S) == {S[k] : k \in 1..Len(S)}

Bad(s, e) ==
    CASE e.op = "make" -> When(e.refused, "C29:Makes")
      [] e.op = "bad"  -> When(~e.refused, "C29:WrongNumber")
      [] e.op = "update" -> When(e.refused # (Len(e.v) # Len(s.names)), "C29:WrongNumber")
      [] e.op = "read" ->
            LET i == s.all[e.a]
            IN When(e.iter # i.v \/ e.items # i.v, "C29:Values")
               \cup When(e.named # i.v, "C29:ByName")
               \cup When(e.fractions # Fractions(s, i.v), "C29:Fractions")
               \cup When(Range(e.params) # {[n |-> s.names[k], v |-> i.v[k]] : k \in 1..Len(i.v)}, "C29:Params")
               \cup When(e.sse # Fit(i.f) \/ e.float # Fit(i.f), "C29:Fitness")
               \cup When(e.checkTrue /\ e.true # ~(i.f.k = "num" /\ i.f.x < 0), "C29:Truth")
               \cup When(\E x \in s.hashes : x.v = i.v /\ x.f = Fit(i.f) /\ x.h # e.hash, "C29:Hash")
               \cup When(e.hash2 # e.hash, "C29:HashElsewhere")
      [] e.op = "compare" ->
            LET i == s.all[e.a]
                j == s.all[e.b]
            IN When(e.lt # (Fit(i.f) < Fit(j.f)) \/ e.gt # (Fit(i.f) > Fit(j.f)), "C29:Order")
               \cup When(e.eq # Same(i, j) \/ e.ne # ~Same(i, j), "C29:Equal")
               \cup When(e.equals # (i.v = j.v), "C29:EqualValues")
               \cup When(e.eq /\ ~e.sameHash, "C29:Hash")
      [] e.op = "versus" ->
            LET i == s.all[e.a]
            IN When(e.lt # (Fit(i.f) < Fit(e.f)) \/ e.gt # (Fit(i.f) > Fit(e.f)), "C29:Order")
      [] e.op = "sorted" ->
            When({e.order[k] : k \in 1..Len(e.order)} # 1..Len(s.all) \/ Len(e.order) # Len(s.all)
                 \/ \E k \in 1..(Len(e.order)-1) : Fit(s.all[e.order[k]].f) > Fit(s.all[e.order[k+1]].f), "C29:Sorted")
      [] e.op = "exc"  -> {"C29:Raises"}
      [] e.op = "hang" -> {"C29:Hangs"}
      [] OTHER -> {}
=============================================================================
