------------------------------- MODULE Summary -------------------------------
(***************************************************************************)
(* The summary of a log. The log has entries of fitness and parameter      *)
(* values with stars (none, one, two). The summary has a column for each   *)
(* parameter asked for, in order of the names, or, if none was asked for,  *)
(* for each that has stars in one of the four best entries. Going from the *)
(* best entry to worse ones, up to twice its fitness, it has a row for     *)
(* each that differs by more than 1% from the row before in the fitness or *)
(* a parameter shown; the best 40 of those, the best at the end.           *)
(*                                                                         *)
(* Parameters are numbered in order of their names, which consist of a     *)
(* stem and a number. No two entries have the same fitness, which is odd.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

When(cond, name) == IF cond THEN {name} ELSE {}

(* Configuration c: names, a sequence of [st, n]; log, one of [s, v, st]. *)
InitState(c) == [c |-> c]
Apply(s, e) == s

Matches(p, name) ==
    CASE p.kind = "all"   -> TRUE
      [] p.kind = "stem"  -> name.st = p.st
      [] p.kind = "one"   -> name.st = p.st /\ name.n = p.a
      [] p.kind = "range" -> name.st = p.st /\ name.n >= p.a /\ name.n <= p.b
Rank(c, k) == Cardinality({j \in 1..Len(c.log) : c.log[j].s < c.log[k].s})
Starred(c, j) == \E k \in 1..Len(c.log) : Rank(c, k) < 4 /\ c.log[k].st[j] > 0
Asked(c, args) == {j \in 1..Len(c.names) : IF args = <<>> THEN Starred(c, j)
                                           ELSE \E k \in 1..Len(args) : Matches(args[k], c.names[j])}
(* A set of numbers as an ascending sequence. *)
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == Least(S) IN <<x>> \o Sorted(S \ {x})

Abs(x) == IF x < 0 THEN -x ELSE x
Differs(a, b) == IF b = 0 THEN a # 0 ELSE 100 * Abs(a - b) > Abs(b)
NewRow(c, cols, k, last) ==
    Differs(c.log[k].s, c.log[last].s) \/ \E j \in cols : Differs(c.log[k].v[j], c.log[last].v[j])
Order(c) == [r \in 1..Len(c.log) |-> CHOOSE k \in 1..Len(c.log) : Rank(c, k) = r - 1]
(* Rows from the best on: O is the order, r how many entries have been dealt with. *)
RECURSIVE Rows(_, _, _, _, _)
Rows(c, cols, O, r, R) ==
    IF r = Len(O) \/ Len(R) = 40 THEN R
    ELSE LET k == O[r+1]
         IN IF c.log[k].s > 2 * c.log[O[1]].s THEN R
            ELSE Rows(c, cols, O, r+1, IF NewRow(c, cols, k, R[Len(R)]) THEN Append(R, k) ELSE R)
Expected(c, cols) ==
    LET O == Order(c)
        R == Rows(c, cols, O, 1, <<O[1]>>)
    IN [n \in 1..Len(R) |-> R[Len(R) + 1 - n]]

BadShow(c, e) ==
    LET cols == Asked(c, e.args)
        C == Sorted(cols)
        X == Expected(c, cols)
    IN IF e.failed THEN {"C33:Fails"}
       ELSE IF e.cols # C THEN {"C33:Columns"}
       ELSE When([n \in 1..Len(e.rows) |-> e.rows[n].s] # [n \in 1..Len(X) |-> c.log[X[n]].s], "C33:Rows")
            \cup When(\E n \in 1..Len(e.rows), k \in 1..Len(c.log) :
                        /\ c.log[k].s = e.rows[n].s
                        /\ e.rows[n].v # [j \in 1..Len(C) |-> c.log[k].v[C[j]]], "C33:Values")
            \cup When(\E n \in 1..Len(e.rows), k \in 1..Len(c.log) :
                        /\ c.log[k].s = e.rows[n].s
                        /\ e.rows[n].st # [j \in 1..Len(C) |-> c.log[k].st[C[j]]], "C33:Stars")

Bad(s, e) ==
    CASE e.op = "show" -> BadShow(s.c, e)
      [] e.op = "exc"  -> {"C33:Raises"}
      [] e.op = "hang" -> {"C33:Hangs"}
      [] OTHER -> {}
=============================================================================
