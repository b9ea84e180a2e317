-------------------------------- MODULE Timer --------------------------------
(***************************************************************************)
(* The timer of parts of an evaluation. Events: call (of a part, at time   *)
(* t), done (a call's result has come, at time t, and been passed on),     *)
(* start (an iteration), next (what it yields), stop (it yields no more).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

When(cond, name) == IF cond THEN {name} ELSE {}

(* calls, its: sequences, numbered in the order begun. sum, n: functions of
   the identifiers timed so far. *)
InitState(c) == [calls |-> <<>>, its |-> <<>>, sum |-> <<>>, n |-> <<>>]

Timed(s) == DOMAIN s.n
Get(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0

Apply(s, e) ==
    CASE e.op = "call" -> [s EXCEPT !.calls = Append(@, [id |-> e.id, t |-> e.t])]
      [] e.op = "done" ->
            LET c == s.calls[e.call]
            IN [s EXCEPT !.sum = (c.id :> Get(@, c.id) + e.t - c.t) @@ @,
                         !.n   = (c.id :> Get(@, c.id) + 1) @@ @]
      [] e.op = "start" -> [s EXCEPT !.its = Append(@, [sum |-> s.sum, n |-> s.n, left |-> Timed(s)])]
      [] e.op = "next" -> [s EXCEPT !.its[e.it].left = @ \ {e.id}]
      [] OTHER -> s

(* Average of a is less than that of b *)
Faster(i, a, b) == i.sum[a] * i.n[b] < i.sum[b] * i.n[a]

Bad(s, e) ==
    CASE e.op = "call" -> When(~e.ok, "C25:CalledAsAsked")
      [] e.op = "done" -> When(~e.same, "C25:PassedOn")
      [] e.op = "next" ->
            LET i == s.its[e.it]
            IN IF e.id \notin i.left THEN {"C25:Once"}
               ELSE When(\E b \in i.left : Faster(i, b, e.id), "C25:Order")
      [] e.op = "stop" -> When(s.its[e.it].left # {}, "C25:Every")
      [] e.op = "exc"  -> {"C25:Raises"}
      [] e.op = "hang" -> {"C25:Hangs"}
      [] OTHER -> {}
=============================================================================
