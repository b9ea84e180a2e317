------------------------------- MODULE Roster -------------------------------
(***************************************************************************)
(* The history of a population: records of fitness, parameter values and   *)
(* one of the labels "pop" (of a current member), "former" and "never".    *)
(* Operations take effect in the order requested. Which record goes when a *)
(* full history gets another is not determined, so the state is a set of   *)
(* worlds, each a bag (a function from records to how many there are).     *)
(*                                                                         *)
(* Events: add, bulk (many, in a history that has room for them),          *)
(* drop (a member is one no longer), purge (of members),                   *)
(* clear, query (with its answer), quiet (all that can be seen once        *)
(* everything requested is done), waited (the records as soon as waiting   *)
(* for reports is over), limit (members' values were confined).            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Inf == 2000000000
When(cond, name) == IF cond THEN {name} ELSE {}

(* Configuration c: nmax records at most, nd parameters, sorted: the columns in
   order of their names, pop: whether there is a population. *)
InitState(c) == [c |-> c, w |-> {[recs |-> <<>>, total |-> 0]}, lost |-> {}]

-----------------------------------------------------------------------------
(* Bags as functions. *)
Has(b, r) == r \in DOMAIN b
Count(b, r) == IF Has(b, r) THEN b[r] ELSE 0
Plus(b, r) == IF Has(b, r) THEN [b EXCEPT ![r] = @ + 1] ELSE (r :> 1) @@ b
Minus(b, r) == IF b[r] > 1 THEN [b EXCEPT ![r] = @ - 1]
               ELSE [x \in DOMAIN b \ {r} |-> b[x]]
RECURSIVE SumOf(_, _)
SumOf(b, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN b[x] + SumOf(b, D \ {x})
Size(b) == SumOf(b, DOMAIN b)
Rec(s, v, l) == [s |-> s, v |-> v, l |-> l]

(* The number of entries of sequence S that are x; whether S holds what bag b does. *)
Times(S, x) == Cardinality({k \in 1..Len(S) : S[k] = x})
SameBag(S, b) == /\ Len(S) = Size(b)
                 /\ \A r \in DOMAIN b : Times(S, r) = b[r]
Ascending(S) == \A k \in 1..Len(S)-1 : S[k] <= S[k+1]

-----------------------------------------------------------------------------
(* What each operation makes of a world. *)
Members(w) == {r \in DOMAIN w.recs : r.l = "pop"}
Add(c, w, e) ==
    LET r == Rec(e.s, e.v, IF e.never THEN "never" ELSE "pop")
    IN IF e.s = Inf THEN {w}
       ELSE IF Size(w.recs) < c.nmax THEN {[recs |-> Plus(w.recs, r), total |-> w.total + 1]}
       ELSE IF DOMAIN w.recs = Members(w) THEN {w}
       ELSE {[recs |-> Plus(Minus(w.recs, x), r), total |-> w.total + 1] : x \in DOMAIN w.recs \ Members(w)}
Drop(w, e) ==
    LET r == Rec(e.s, e.v, "pop")
    IN IF Has(w.recs, r) THEN {[w EXCEPT !.recs = Plus(Minus(w.recs, r), Rec(e.s, e.v, "former"))]} ELSE {w}
Purge(w) == {[w EXCEPT !.recs = [r \in DOMAIN @ \ Members(w) |-> @[r]]]}
Clear(w) == {[recs |-> <<>>, total |-> 0]}

-----------------------------------------------------------------------------
(* Queries. The answer is a sequence of rows: fitness, then the values asked for. *)
Best(b) == IF DOMAIN b = {} THEN 0 ELSE (CHOOSE r \in DOMAIN b : \A q \in DOMAIN b : r.s <= q.s).s
Wanted(w, e) == {r \in DOMAIN w.recs : /\ e.label = "all" \/ r.l = e.label
                                       /\ r.s * 8 <= e.ratio8 * Best(w.recs)}
Slice(S, a, b, step) ==         \* S[a:b:step] for 0 <= a, 0 < step
    LET n == IF b > Len(S) THEN Len(S) ELSE b
    IN [k \in 1..(IF n <= a THEN 0 ELSE (n - a + step - 1) \div step) |-> S[a + 1 + (k-1)*step]]
Columns(c, e) == CASE e.how = "all"   -> c.sorted
                   [] e.how = "names" -> e.cols
                   [] e.how = "slice" -> Slice(c.sorted, e.a, e.b, e.step)
Row(c, e, r) == LET C == Columns(c, e) IN <<r.s>> \o [k \in 1..Len(C) |-> r.v[C[k]]]
AnswerOK(c, w, e) ==
    LET W == Wanted(w, e)
    IN /\ Len(e.rows) = SumOf(w.recs, W)
       /\ Ascending([k \in 1..Len(e.rows) |-> e.rows[k][1]])
       /\ \A r \in W : Times(e.rows, Row(c, e, r)) =
                       SumOf(w.recs, {q \in W : Row(c, e, q) = Row(c, e, r)})

-----------------------------------------------------------------------------
(* What is seen: rows (fitness and values, in order), and those with each label. *)
Seen(w, l) == [r \in {q \in DOMAIN w.recs : q.l = l} |-> w.recs[r]]
Labelled(S, l) == [k \in 1..Len(S) |-> Rec(S[k].s, S[k].v, l)]
RecordsOK(w, e) ==
    /\ Len(e.rows) = Size(w.recs)
    /\ \A r \in DOMAIN w.recs :
         Times(e.rows, [s |-> r.s, v |-> r.v]) =
         SumOf(w.recs, {q \in DOMAIN w.recs : q.s = r.s /\ q.v = r.v})
LabelsOK(w, e) == ~e.labels \/
    /\ SameBag(Labelled(e.pop, "pop"), Seen(w, "pop"))
    /\ SameBag(Labelled(e.former, "former"), Seen(w, "former"))
    /\ SameBag(Labelled(e.never, "never"), Seen(w, "never"))

(* Once something wrong was seen, what was seen is gone on with. *)
Bag(S) == [r \in {S[k] : k \in 1..Len(S)} |-> Times(S, r)]
AsSeen(e) == [recs |-> Bag(Labelled(e.pop, "pop") \o Labelled(e.former, "former") \o Labelled(e.never, "never")),
              total |-> e.total]
Consistent(s, e) ==
    LET b == {w \in s.w : RecordsOK(w, e) /\ LabelsOK(w, e)}
    IN IF b # {} THEN b ELSE IF e.labels THEN {AsSeen(e)} ELSE {CHOOSE w \in s.w : TRUE}

Bulk(w, e) ==
    LET b == Bag([k \in 1..Len(e.recs) |-> Rec(e.recs[k].s, e.recs[k].v, "never")])
    IN {[recs |-> [r \in DOMAIN w.recs \cup DOMAIN b |-> Count(w.recs, r) + Count(b, r)],
         total |-> w.total + Len(e.recs)]}

Each(s, Op(_)) == [s EXCEPT !.w = UNION {Op(w) : w \in @}]

Apply(s, e) ==
    CASE e.op = "add"   -> Each(s, LAMBDA w : Add(s.c, w, e))
      [] e.op = "bulk"  -> Each(s, LAMBDA w : Bulk(w, e))
      [] e.op = "drop"  -> Each(s, LAMBDA w : Drop(w, e))
      [] e.op = "purge" -> Each(s, LAMBDA w : Purge(w))
      [] e.op = "clear" -> Each(s, LAMBDA w : Clear(w))
      [] e.op = "query" -> LET ok == {w \in s.w : AnswerOK(s.c, w, e)} IN IF ok = {} THEN s ELSE [s EXCEPT !.w = ok]
      [] e.op = "quiet" -> [s EXCEPT !.w = Consistent(s, e)]
      [] OTHER -> s

-----------------------------------------------------------------------------
BadQuiet(s, e) ==
    LET a == {w \in s.w : RecordsOK(w, e)}
    IN When(a = {}, "C16:Records")
       \cup When(Len(e.rows) > s.c.nmax, "C16:Bound")
       \cup When(~Ascending([k \in 1..Len(e.rows) |-> e.rows[k].s]), "C16:Sorted")
       \cup When(e.len # Len(e.rows), "C16:Length")
       \cup When(e.total >= 0 /\ \A w \in s.w : w.total # e.total, "C16:Total")
       \cup When(e.labels /\ a # {} /\ ~\E w \in a : LabelsOK(w, e), "C17:Labels")
       \cup When(e.labels /\ Len(e.pop) + Len(e.former) + Len(e.never) # Len(e.rows), "C17:Cover")
       \cup When(s.c.pop /\ e.labels /\ ~e.confined /\
                 (Len(e.members) # Len(e.pop) \/ \E k \in 1..Len(e.members) :
                    Times(e.members, e.members[k]) # Times(e.pop, e.members[k])), "C17:Members")

(* Selections of row numbers from an analysis: K lists the fitness in order. *)
Between(e) ==   \* by fraction of the span of fitness, in eighths
    LET S == e.s  n == Len(S)  span == S[n] - S[1]
    IN SelectSeq([k \in 1..n |-> k], LAMBDA k : 8*(S[k] - S[1]) >= e.f1*span /\ 8*(S[k] - S[1]) < e.f2*span)
Portion(e) ==
    LET n == Len(e.s)  a == (e.f1*n) \div 8  b == (e.f2*n) \div 8
    IN [k \in 1..((IF b+1 > n THEN n ELSE b+1) - (IF a > n THEN n ELSE a)) |-> a + k]

Bad(s, e) ==
    CASE e.op = "quiet" -> BadQuiet(s, e)
      [] e.op = "query" -> IF e.failed THEN {"C27:NoAnswer"}
                           ELSE When(~\E w \in s.w : AnswerOK(s.c, w, e), "C27:Answer")
      [] e.op = "waited" -> When(~\E w \in s.w : RecordsOK(w, e), "C16:NotYetRecorded")
      [] e.op = "fraction" -> When(e.got # Between(e), "C27:Fraction")
      [] e.op = "portion"  -> When(e.got # Portion(e), "C27:Portion")
      [] e.op = "altered"  -> {"C27:Altered"}
      [] e.op = "exc"  -> {"C16:Raises", "C17:Raises", "C27:Raises"}
      [] e.op = "hang" -> {"C16:Hangs", "C17:Hangs", "C27:Hangs"}
      [] OTHER -> {}
=============================================================================
