------------------------------- MODULE LogModel -------------------------------
(***************************************************************************)
(* A log that remembers whether a newline is needed before the next line   *)
(* of text, as the implementation does.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT Depth
S == INSTANCE Log

VARIABLES s, fh, needed, wrote, broken, ok, ops
vars == <<s, fh, needed, wrote, broken, ok, ops>>
Init == s = S!InitState(0) /\ fh = 0 /\ needed = FALSE /\ wrote = FALSE /\ broken = {} /\ ok = TRUE /\ ops = <<>>

L(pre, lits, args, post) == [call |-> "line", pre |-> pre, lits |-> lits, args |-> args, post |-> post]
Lines == { L(<<>>, <<"word">>, <<>>, <<>>), L(<<0>>, <<"a ", "">>, <<"0">>, <<-2>>),
           L(<<-2, 3>>, <<"bc">>, <<>>, <<0, -2>>) }
Kind(c) == [call |-> c]
Calls == Lines \cup { Kind("none"), Kind("ask"), Kind("blank"), Kind("rule"), Kind("empty"),
                      [call |-> "char", x |-> "x"] }

(* Handle 3 fails on everything written to it *)
Step(c, sw, to) ==
    LET h == IF sw THEN to ELSE fh
        leaves == IF sw /\ to # fh /\ fh > 1 THEN <<fh>> ELSE <<>>
        text == c.call \in {"line", "rule", "empty"}
        puts == text \/ c.call \in {"char", "blank"}
        failed == h = 3 /\ puts
        body == IF c.call = "char" THEN <<c.x>> ELSE IF c.call = "blank" THEN <<S!NL>>
                ELSE IF text THEN CHOOSE t \in S!Texts(c) : TRUE ELSE <<>>
        out == IF h = 0 \/ failed THEN <<>> ELSE IF text /\ needed THEN <<S!NL>> \o body ELSE body
        e == c @@ [op |-> "call", sw |-> sw, to |-> to, failed |-> failed, on |-> h # 0 /\ ~failed,
                   closed |-> leaves \o (IF failed THEN <<3>> ELSE <<>>),
                   ret |-> fh, out |-> [k \in 1..Len(out) |-> [h |-> h, t |-> out[k]]], got |-> wrote]
    IN /\ s' = S!Apply(s, e) /\ ok' = (S!Bad(s, e) = {})
       /\ ops' = Append(ops, c @@ [sw |-> sw, to |-> to])
       /\ fh' = IF failed THEN 0 ELSE h
       /\ needed' = IF h = 0 \/ failed \/ ~puts THEN needed ELSE ~text
       /\ wrote' = IF c.call = "ask" THEN FALSE ELSE wrote \/ (h # 0 /\ text)
       /\ broken' = broken \cup (IF leaves # <<>> THEN {fh} ELSE {}) \cup (IF failed THEN {3} ELSE {})
Call == /\ Len(ops) < Depth
        /\ \/ \E c \in Calls : Step(c, FALSE, 0)
           \/ \E c \in {Kind("none"), L(<<>>, <<"word">>, <<>>, <<>>)} : \E to \in (0..3) \ broken : Step(c, TRUE, to)
Show == /\ Len(ops) = Depth
        /\ PrintT(<<"BEHAVIOUR", ToJson(ops)>>)
        /\ ops' = Append(ops, Kind("end")) /\ UNCHANGED <<s, fh, needed, wrote, broken, ok>>
Next == Call \/ Show
Spec == Init /\ [][Next]_vars
Accepted == ok
Same == s.h = fh
=============================================================================
