--------------------------------- MODULE Log ---------------------------------
(***************************************************************************)
(* The message log. Handle 0 is none, handle 1 standard output. Every      *)
(* event has what was written during it (out: a sequence of tokens and     *)
(* the handle h they went to, a token being a newline or a run without     *)
(* one, with rows of hyphens shown as "-*"), what was closed, whether a    *)
(* write failed, what was returned, and whether the log says it is on.     *)
(* Calls: none, line (with items before and after), char, blank, rule,     *)
(* ask; each possibly with a switch of handles first.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

When(cond, name) == IF cond THEN {name} ELSE {}
NL == "\n"
Rule == "-*"

(* col: "fresh" - at the start of a line, "mid" - not, "maybe" - a newline
   before the next line of text is as good as none. *)
InitState(c) == [h |-> 0, col |-> "fresh", written |-> "no"]

RECURSIVE Filled(_, _)
Filled(lits, args) == IF args = <<>> THEN lits[1]
                      ELSE lits[1] \o args[1] \o Filled(Tail(lits), Tail(args))
RECURSIVE Spaces(_)
Spaces(n) == IF n = 0 THEN "" ELSE " " \o Spaces(n-1)

RECURSIVE Before(_), Indent(_)
Before(items) == IF items = <<>> THEN <<>>
                 ELSE (CASE items[1] = 0   -> <<NL>>
                         [] items[1] = -2  -> <<NL, Rule, NL>>
                         [] OTHER -> <<>>) \o Before(Tail(items))
Indent(items) == IF items = <<>> THEN ""
                 ELSE (IF items[1] > 0 THEN Spaces(items[1]) ELSE "") \o Indent(Tail(items))
After(items) == LET one(x) == IF x = 0 THEN <<NL>> ELSE <<NL, Rule>>
                IN CASE items = <<>> -> {<<>>}
                     [] Len(items) = 1 -> {one(items[1])}
                     [] OTHER -> {one(items[1]) \o one(items[2]), one(items[2]) \o one(items[1])}
Run(t) == IF t = "" THEN <<>> ELSE <<t>>

(* The ways in which what is asked for may be written, from a line's start *)
Texts(e) ==
    CASE e.call = "line"  -> {Before(e.pre) \o Run(Indent(e.pre) \o Filled(e.lits, e.args)) \o a \o <<NL>> : a \in After(e.post)}
      [] e.call = "rule"  -> {<<NL, Rule, NL>>}
      [] e.call = "empty" -> {<<NL>>}
Written(s, e) ==
    CASE e.call = "char"  -> {<<e.x>>}
      [] e.call = "blank" -> {<<NL>>}
      [] e.call \in {"line", "rule", "empty"} ->
            LET T == Texts(e)
                N == {<<NL>> \o t : t \in T}
            IN CASE s.col = "fresh" -> T
                 [] s.col = "mid"   -> N
                 [] OTHER -> T \cup N
      [] OTHER -> {<<>>}

Switched(s, e) == IF ~e.sw \/ e.to = s.h THEN s
                  ELSE [s EXCEPT !.h = e.to, !.col = "maybe"]
Fresh(s, e) == IF e.sw /\ e.to # s.h /\ s.col = "fresh" THEN [Switched(s, e) EXCEPT !.col = "fresh"] ELSE Switched(s, e)

Apply(s, e) ==
    IF e.op # "call" THEN s
    ELSE LET t == Fresh(s, e)
         IN CASE e.failed -> [t EXCEPT !.h = 0, !.col = "maybe", !.written = IF @ = "yes" THEN "yes" ELSE "either"]
              [] e.call = "ask" -> [t EXCEPT !.written = "no"]
              [] t.h = 0 \/ e.call = "none" -> t
              [] e.call = "char" -> [t EXCEPT !.col = "mid"]
              [] e.call = "blank" -> [t EXCEPT !.col = "maybe"]
              [] e.call = "empty" -> [t EXCEPT !.col = "fresh", !.written = IF @ = "yes" THEN "yes" ELSE "either"]
              [] OTHER -> [t EXCEPT !.col = "fresh", !.written = "yes"]

Range(S) == {S[k] : k \in 1..Len(S)}
Bad(s, e) ==
    CASE e.op = "call" ->
            LET t == Fresh(s, e)
                on == t.h # 0
                leaves == IF e.sw /\ e.to # s.h /\ s.h > 1 THEN {s.h} ELSE {}
            IN IF e.failed
               THEN When(e.on, "C24:OnAfterFailure")
                    \cup When(\E x \in Range(e.closed) : x <= 1, "C24:Closes")
               ELSE When(~on /\ e.out # <<>>, "C24:WritesWhenOff")
                    \cup When(on /\ \E k \in 1..Len(e.out) : e.out[k].h # t.h, "C24:WrongHandle")
                    \cup When(on /\ [k \in 1..Len(e.out) |-> e.out[k].t] \notin Written(t, e), "C24:Text")
                    \cup When(~(leaves \subseteq Range(e.closed)), "C24:LeavesOpen")
                    \cup When(\E x \in Range(e.closed) : x \notin leaves, "C24:Closes")
                    \cup When(e.on # on, "C24:On")
                    \cup When(e.call = "none" /\ e.ret # s.h, "C24:Returns")
                    \cup When(e.call = "ask" /\ s.written # "either" /\ e.got # (s.written = "yes"), "C24:LineWritten")
      [] e.op = "exc"  -> {"C24:Raises"}
      [] e.op = "hang" -> {"C24:Hangs"}
      [] OTHER -> {}
=============================================================================
