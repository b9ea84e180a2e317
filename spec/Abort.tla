-------------------------------- MODULE Abort --------------------------------
(***************************************************************************)
(* The abort facility: handlers registered, key presses, abort requests,   *)
(* ignoring, shutting down, starting over. Each event says which handlers  *)
(* were called in the course of it (called) and how often the console of   *)
(* the present facility has been released (lost). What a handler does when *)
(* called: nothing, register another one (h + 100), press the key, or      *)
(* request an abort.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

When(cond, name) == IF cond THEN {name} ELSE {}

Fresh == [ exists  |-> TRUE,
           queue   |-> <<>>,      \* registered, in order
           later   |-> <<>>,      \* registered after the abort
           aborted |-> FALSE,
           down    |-> FALSE,     \* shut down without an abort
           ignored |-> FALSE,
           pend    |-> 0,         \* abort requests for the next turn
           ever    |-> {} ]       \* handlers called so far

(* Configuration c: fresh, TRUE if nothing has used the facility before. *)
InitState(c) == [Fresh EXCEPT !.exists = ~c.fresh]

(* The order in which a list of handlers is called, with those they register. *)
RECURSIVE Order(_)
Order(q) == IF q = <<>> THEN <<>>
            ELSE <<q[1].h>> \o Order(Tail(q) \o (IF q[1].act = "reg" THEN <<[h |-> q[1].h + 100, act |-> "none"]>> ELSE <<>>))
Requests(q) == Cardinality({k \in 1..Len(q) : q[k].act = "now"})

Range(q) == {q[k] : k \in 1..Len(q)}
Released(s) == s.aborted \/ s.down

(* What a key press (or abort request coming due) calls. *)
Dispatch(s) == IF s.ignored \/ s.aborted THEN <<>> ELSE Order(s.queue)
AfterDispatch(s) == IF s.ignored \/ s.aborted THEN s
                    ELSE [s EXCEPT !.aborted = TRUE, !.queue = <<>>, !.pend = @ + Requests(s.queue)]

BadCalled(s, e, want, ordered) ==
    When(Range(e.called) \cap s.ever # {} \/ Cardinality(Range(e.called)) # Len(e.called), "C10:CalledTwice")
    \cup (IF s.down THEN {}      \* nothing more is said about a facility shut down
          ELSE When(Range(want) \ Range(e.called) # {} /\ ~(s.ignored /\ s.aborted), "C10:NotCalled")
               \cup When(Range(e.called) \ (Range(want) \cup s.ever) # {}, "C10:CalledWithoutCause")
               \cup When(ordered /\ Range(e.called) = Range(want) /\ Len(e.called) = Len(want) /\ e.called # want,
                         "C10:Order"))

BadLost(s, e) == When(e.lost # (IF s.exists /\ Released(s) THEN 1 ELSE 0), "C10:ConsoleReleased")

TurnCalls(s) == IF s.aborted THEN Order(s.later)
                ELSE IF s.pend > 0 THEN Dispatch(s) ELSE <<>>

Apply(s, e) ==
    LET t ==
        CASE e.op = "reg" -> IF s.aborted THEN [s EXCEPT !.later = Append(@, [h |-> e.h, act |-> e.act])]
                             ELSE [s EXCEPT !.exists = TRUE, !.queue = Append(@, [h |-> e.h, act |-> e.act])]
          [] e.op = "key" -> IF s.exists THEN AfterDispatch(s) ELSE s
          [] e.op = "now" -> [s EXCEPT !.exists = TRUE, !.pend = @ + 1]
          [] e.op = "turn" -> LET u == IF s.pend > 0 THEN AfterDispatch(s) ELSE s
                              IN [u EXCEPT !.pend = 0, !.later = <<>>]
          [] e.op = "ignore" -> [s EXCEPT !.exists = TRUE, !.ignored = TRUE]
          [] e.op \in {"shutdown", "stop"} -> IF s.exists /\ ~s.aborted THEN [s EXCEPT !.down = TRUE] ELSE s
          [] e.op = "restart" -> [Fresh EXCEPT !.ever = s.ever]
          [] OTHER -> s
    IN IF "called" \in DOMAIN e THEN [t EXCEPT !.ever = @ \cup Range(e.called)] ELSE t

Bad(s, e) ==
    IF e.op = "exc" THEN {"C10:Raises"}
    ELSE IF e.op = "hang" THEN {"C10:Hangs"}
    ELSE BadCalled(s, e,
             CASE e.op = "key" -> (IF s.exists THEN Dispatch(s) ELSE <<>>)
               [] e.op = "turn" -> TurnCalls(s)
               [] OTHER -> <<>>,
             ~s.aborted)
         \cup BadLost(Apply(s, e), e)
=============================================================================
