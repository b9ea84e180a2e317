------------------------------ MODULE Classify ------------------------------
(***************************************************************************)
(* How the outcome of a challenge is classified and shown: the improvement *)
(* ratio, the progress symbol, and the lines of symbols.                   *)
(* A fitness is a natural number, Inf (missing, infinite, not a number),   *)
(* or Fatal.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Inf == 2000000000
Fatal == -1
Nothing == -1          \* no ratio
When(cond, name) == IF cond THEN {name} ELSE {}

Fit(x) == IF x = Fatal THEN Inf ELSE x
Better(x, y) == Fit(x) < Fit(y)

(* Is a fitness equivalent to a worse (or equal) one, given the threshold md in
   thousandths? Exactly at the threshold rounding may decide either way. *)
Equivalent(better, worse, md) ==
    LET d == (worse - better) * 1000  t == md * worse
    IN IF worse = 0 THEN {FALSE}
       ELSE IF d = t THEN {TRUE, FALSE} ELSE {d < t}

(* The ratio rounded; halves may go either way. *)
Rounded(n, d) ==
    LET q == n \div d  r == n % d
    IN IF 2*r < d THEN {q} ELSE IF 2*r > d THEN {q + 1} ELSE {q, q + 1}

Digit(r) == CASE r = 1 -> "1" [] r = 2 -> "2" [] r = 3 -> "3" [] r = 4 -> "4" [] r = 5 -> "5"
              [] r = 6 -> "6" [] r = 7 -> "7" [] r = 8 -> "8" [] OTHER -> "9"

(* The possible <<ratio, symbol>> for fitness num against den. *)
Outcomes(num, den, md, bogus) ==
    IF num = Fatal \/ den = Fatal THEN {<<Nothing, "?">>}
    ELSE IF num = Inf /\ den = Inf THEN {<<0, "%">>}
    ELSE IF num = Inf THEN {<<1000, bogus>>}
    ELSE IF den = Inf THEN {<<0, "#">>}
    ELSE IF num < den THEN {<<Nothing, "X">>}
    ELSE IF num = 0 THEN {<<0, "0">>, <<1000, "9">>}      \* a tie at zero
    ELSE UNION { IF q THEN {<<0, "0">>}
                 ELSE IF den = 0 THEN {<<1000, "9">>}
                 ELSE { <<r, Digit(r)>> : r \in Rounded(num, den) }
                 : q \in Equivalent(den, num, md) }

-----------------------------------------------------------------------------
(* Configuration c: md, line (symbols that fit a line).
   best: the best reported so far, or None; col: symbols on the current line. *)
None == -2
InitState(c) == [c |-> c, best |-> None, col |-> 0]

(* What is written, a sequence of characters, against the symbols to be shown:
   a line break comes when, and only when, the line is full - at once or just
   before the next symbol. Returns -1 if it does not fit, else the column. *)
RECURSIVE Fits(_, _, _, _)
Fits(col, out, syms, width) ==
    IF out = <<>> THEN (IF syms = <<>> THEN col ELSE -1)
    ELSE IF out[1] = "\n" THEN (IF col = width THEN Fits(0, Tail(out), syms, width) ELSE -1)
    ELSE IF syms = <<>> \/ out[1] # syms[1] \/ col >= width THEN -1
    ELSE Fits(col + 1, Tail(out), Tail(syms), width)

Shown(s, out, symses) == \E q \in symses : Fits(s.col, out, q, s.c.line) >= 0
(* For judging symbols and lines apart. *)
Plain(out) == SelectSeq(out, LAMBDA x : x # "\n")

BadOut(s, out, symses) ==
    IF \A q \in symses : Plain(out) # q THEN {"C13:Symbol"}
    ELSE When(~Shown(s, out, symses), "C13:LineBreak")

Quiet(e, symses) == IF e.quiet THEN {<<>>} ELSE symses

BadRatio(s, e) ==
    LET o == Outcomes(e.num, e.den, s.c.md, "!")
        good == {x \in o : x[1] = e.r}
    IN When(good = {}, "C13:Ratio")
       \cup (IF good = {} THEN {} ELSE BadOut(s, e.out, Quiet(e, {<<x[2]>> : x \in good})))

NewBest(s, x) == s.best = None \/ Better(x, s.best)

(* One individual compared with the best so far. *)
LoneSymbols(s, e) ==
    IF e.s = Fatal THEN {<<"%">>}
    ELSE IF s.best = None THEN {<<"*">>}
    ELSE IF Better(e.s, s.best) \/ e.force THEN {<<"!">>}
    ELSE {<<x[2]>> : x \in Outcomes(e.s, s.best, s.c.md, "#")}

BadPair(s, e) ==
    LET o == Outcomes(e.old, e.new, s.c.md, "!")
        good == {x \in o : x[1] = e.r}
        tail == IF NewBest(s, e.new) THEN <<"+">> ELSE <<>>
    IN When(good = {}, "C13:Ratio")
       \cup (IF good = {} THEN {} ELSE BadOut(s, e.out, Quiet(e, {<<x[2]>> \o tail : x \in good})))

Bad(s, e) ==
    CASE e.op = "ratio" -> BadRatio(s, e)
      [] e.op = "lone"  -> BadOut(s, e.out, Quiet(e, LoneSymbols(s, e)))
      [] e.op = "pair"  -> BadPair(s, e)
      [] e.op = "fresh" -> When(e.out \notin (IF s.col = 0 THEN {<<>>} ELSE {<<"\n">>}), "C13:FreshLine")
      [] e.op = "exc"   -> {"C13:Raises"}
      [] e.op = "hang"  -> {"C13:Hangs"}
      [] OTHER -> {}

RECURSIVE Column(_, _)
Column(col, out) == IF out = <<>> THEN col
                    ELSE Column(IF out[1] = "\n" THEN 0 ELSE col + 1, Tail(out))

Apply(s, e) ==
    CASE e.op = "ratio" -> [s EXCEPT !.col = Column(@, e.out)]
      [] e.op = "lone"  -> [s EXCEPT !.col = Column(@, e.out),
                                     !.best = IF e.s # Fatal /\ NewBest(s, e.s) THEN e.s ELSE @]
      [] e.op = "pair"  -> [s EXCEPT !.col = Column(@, e.out),
                                     !.best = IF NewBest(s, e.new) THEN e.new ELSE @]
      [] e.op = "fresh" -> [s EXCEPT !.col = 0]
      [] OTHER -> s
=============================================================================
