------------------------------ MODULE Constrain ------------------------------
(***************************************************************************)
(* Constraint objects and relations checkers. Events: new (a constraint    *)
(* object with its registry), append, take (all that an iteration yields), *)
(* size, check (one yielded check called, with the calls of functions that *)
(* it led to), relate. Logarithmic values are given as integers, linear    *)
(* values are in hundredths.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

When(cond, name) == IF cond THEN {name} ELSE {}
Range(S) == {S[k] : k \in 1..Len(S)}

(* Objects and takes are numbered from 1 in the order made. *)
InitState(c) == [objs |-> <<>>, takes |-> <<>>]

Own(f, lin, log) == [f |-> f, raw |-> FALSE, lin |-> lin, log |-> log]
Raw(f) == [f |-> f, raw |-> TRUE, lin |-> {}, log |-> {}]
Checks(e) == [k \in 1..Len(e.reg) |-> Own(e.reg[k].f, Range(e.reg[k].lin), Range(e.reg[k].log))]

Apply(s, e) ==
    CASE e.op = "new"    -> [s EXCEPT !.objs = Append(@, Checks(e))]
      [] e.op = "append" -> [s EXCEPT !.objs[e.obj] = Append(@, Raw(e.f))]
      [] e.op = "take"   -> [s EXCEPT !.takes = Append(@, s.objs[e.obj])]
      [] OTHER -> s

RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 10 * Pow(n-1)
(* Logarithms are at least -2 *)
Linear(g) == Pow(g.v + 2)
(* What function c.f has to be given of parameters G, a set of [n, v]; a parameter
   named both as linear and as logarithmic is given as it is *)
Names(G) == {g.n : g \in G}
Given(c, G) ==
    IF c.raw THEN {[n |-> g.n, v |-> g.v * 100] : g \in G}
    ELSE {[n |-> g.n, v |-> g.v * 100] : g \in {h \in G : h.n \in c.lin}}
         \cup {[n |-> g.n, v |-> Linear(g)] : g \in {h \in G : h.n \in c.log \ c.lin}}
Absent(c, G) == ~c.raw /\ ~((c.lin \cup c.log) \subseteq Names(G))

Within(r, x, y) == LET d == r.m * x + r.b - y IN d <= r.err /\ -d <= r.err

Bad(s, e) ==
    CASE e.op = "size" ->
            When(e.len # Len(s.objs[e.obj]), "C23:Length")
            \cup When(e.true # (Len(s.objs[e.obj]) > 0), "C23:Truth")
      [] e.op = "take" -> When(e.n # Len(s.objs[e.obj]), "C23:Yields")
      [] e.op = "setup" -> When(~e.ok, "C23:SetUp")
      [] e.op = "check" ->
            LET c == s.takes[e.take][e.k]
                G == Range(e.given)
            IN IF Absent(c, G) THEN When(~e.got, "C23:AbsentParameter") \cup When(e.calls # <<>>, "C23:CalledAnyway")
               ELSE IF Len(e.calls) # 1 THEN {"C23:Called"}
               ELSE LET call == e.calls[1]
                    IN When(call.f # c.f, "C23:OwnMethod")
                       \cup When(Range(call.params) # Given(c, G), "C23:OwnParameters")
                       \cup When(e.got # call.ret, "C23:Verdict")
      [] e.op = "relate" ->
            When(e.got # (\A k \in 1..Len(e.of) : Within(e.of[k], e.of[k].xv, e.of[k].yv)), "C23:Relation")
      [] e.op = "exc"  -> {"C23:Raises"}
      [] e.op = "hang" -> {"C23:Hangs"}
      [] OTHER -> {}
=============================================================================
