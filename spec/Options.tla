------------------------------- MODULE Options -------------------------------
(***************************************************************************)
(* Options of a script: declared with a letter, a long name, perhaps a     *)
(* default value, and a description; then found by the letter once the     *)
(* command line has been parsed, which happens at the first access. All    *)
(* other arguments are a sequence, if they were declared.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

When(cond, name) == IF cond THEN {name} ELSE {}

(* Configuration c: opts, a sequence of [t, d], type ("flag", "int",        *)
(* "float", "str") and default; rest, whether other arguments are declared. *)
(* A command line is a sequence of items [o, v, is], o being the option     *)
(* number (0 for another argument), v the value's text and is the types it  *)
(* can be read as.                                                          *)
InitState(c) == [c |-> c, line |-> <<>>, parsed |-> FALSE, fixed |-> <<>>]

Wrong(c, line) ==
    \E k \in 1..Len(line) :
        \/ line[k].o = 0 /\ ~c.rest
        \/ /\ line[k].o > 0 /\ c.opts[line[k].o].t # "flag"
           /\ ~\E n \in 1..Len(line[k].is) : line[k].is[n] = c.opts[line[k].o].t
Line(s) == IF s.parsed THEN s.fixed ELSE s.line
Given(line, o) == {k \in 1..Len(line) : line[k].o = o}
Last(S) == CHOOSE k \in S : \A j \in S : j <= k
Value(c, line, o) ==
    LET G == Given(line, o)
        t == c.opts[o].t
    IN IF t = "flag" THEN [t |-> "flag", v |-> IF G = {} THEN "False" ELSE "True"]
       ELSE [t |-> t, v |-> IF G = {} THEN c.opts[o].d ELSE line[Last(G)].v]
Others(line) == LET L == SelectSeq(line, LAMBDA x : x.o = 0) IN [k \in 1..Len(L) |-> L[k].v]

BadGet(s, e) ==
    LET line == Line(s)
    IN IF Wrong(s.c, line) THEN When(~e.exits, "C36:WrongAccepted")
       ELSE IF e.exits THEN {"C36:Rejected"}
       ELSE IF e.o = 0 THEN When(e.got # [t |-> "none", v |-> "None"], "C36:Undeclared")
       ELSE When(e.got # Value(s.c, line, e.o), "C36:Value")
BadSeq(s, e) ==
    LET line == Line(s)
        X == IF s.c.rest THEN Others(line) ELSE <<>>
    IN IF Wrong(s.c, line) THEN When(~e.exits, "C36:WrongAccepted")
       ELSE IF e.exits THEN {"C36:Rejected"}
       ELSE When(e.got # X, "C36:Others")
            \cup When(e.len # Len(X) \/ e.truth # (X # <<>>), "C36:Length")
            \cup When(e.items # X, "C36:Items")

Bad(s, e) ==
    CASE e.op = "get"  -> BadGet(s, e)
      [] e.op = "seq"  -> BadSeq(s, e)
      [] e.op = "run"  -> When(e.called # e.main, "C36:Run") \cup When(e.called /\ ~e.result, "C36:RunResult")
      [] e.op = "help" -> When(~e.exits, "C36:HelpExits")
                          \cup When(e.texts # [k \in 1..Len(e.texts) |-> TRUE], "C36:Described")
                          \cup When(e.defaults # [k \in 1..Len(e.defaults) |-> TRUE], "C36:DefaultShown")
                          \cup When(~e.paras, "C36:Paragraphs")
      [] e.op = "exc"  -> {"C36:Raises"}
      [] e.op = "hang" -> {"C36:Hangs"}
      [] OTHER -> {}

Apply(s, e) ==
    CASE e.op = "line" -> [s EXCEPT !.line = e.line]
      [] e.op \in {"get", "seq"} -> IF s.parsed \/ Wrong(s.c, s.line) THEN s
                                    ELSE [s EXCEPT !.parsed = TRUE, !.fixed = s.line]
      [] e.op = "run" -> IF s.parsed \/ ~e.main \/ Wrong(s.c, s.line) THEN s
                         ELSE [s EXCEPT !.parsed = TRUE, !.fixed = s.line]
      [] OTHER -> s
=============================================================================
