----------------------------- MODULE ScoreModel -----------------------------
(***************************************************************************)
(* Sequences of ratio reports, reported challenges, inquiries and target   *)
(* changes, with every answer the rule allows. Each is printed for replay. *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANT Depth

VARIABLES first, score, target, ops, said
vars == <<first, score, target, ops, said>>

Init == first = TRUE /\ score = 0 /\ target = 400 /\ ops = <<>> /\ said = "nothing"
W(r) == IF r = 0 THEN 100 ELSE 1000 * r - 500
Do(x) == Len(ops) < Depth /\ ops' = Append(ops, x)

Ratio(r) == /\ Do(<<"ratio", r>>) /\ said' = "nothing"
            /\ score' = IF first THEN score ELSE score + W(r)
            /\ UNCHANGED <<first, target>>
Challenge(k) ==      \* lose, tie, invalid, equivalent, win by 2, win by much, new best
    /\ Do(<<"challenge", k>>) /\ said' = "nothing"
    /\ score' = IF first THEN score
                ELSE score + (CASE k = "equiv" -> 100 [] k = "two" -> 1500 [] k = "best" -> 2000 [] OTHER -> 0)
    /\ UNCHANGED <<first, target>>
Target(t) == /\ Do(<<"target", t>>) /\ said' = "nothing" /\ target' = t
             /\ UNCHANGED <<first, score>>
Ask == /\ Do(<<"ask", 0>>)
       /\ said' \in (IF first THEN {"yes"} ELSE IF score = 0 THEN {"no"}
                     ELSE IF score > target THEN {"yes"} ELSE {"yes", "no"})
       /\ first' = FALSE /\ score' = 0 /\ UNCHANGED target
Show == /\ Len(ops) = Depth
        /\ PrintT(<<"BEHAVIOUR", ToJson(ops)>>)
        /\ ops' = Append(ops, <<"end", 0>>) /\ UNCHANGED <<first, score, target, said>>

Next == \/ \E r \in {0, 1, 2, 3, 12} : Ratio(r)
        \/ \E k \in {"lose", "tie", "invalid", "equiv", "two", "best"} : Challenge(k)
        \/ \E t \in {30, 420, 5030} : Target(t)
        \/ Ask \/ Show
Spec == Init /\ [][Next]_vars

TypeOK == score >= 0 /\ said \in {"yes", "no", "nothing"}
FirstIsYes == said = "no" => ~first
=============================================================================
