----------------------------- MODULE ExtractModel -----------------------------
(***************************************************************************)
(* Extraction that copies whatever is not there. Extraction that copies    *)
(* also over what differs from the package (Refresh) is not accepted.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Refresh
S == INSTANCE Extract
Pkg == <<[n |-> "a", c |-> 1], [n |-> "b", c |-> 2]>>

VARIABLES s, dir, ok, ops
vars == <<s, dir, ok, ops>>
Init == /\ s = S!InitState([pkg |-> Pkg, also |-> <<>>, there |-> FALSE, else |-> <<>>])
        /\ dir = [x \in {} |-> 0] /\ ok = TRUE /\ ops = <<>>

Do(e) == s' = S!Apply(s, e) /\ ok' = (S!Bad(s, e) = {})
More == Len(ops) < Depth
Files == {"a", "b", "mine"}
Put == \E n \in Files : \E c \in {1, 7, 8} :
         /\ Do([op |-> "put", n |-> n, c |-> c]) /\ dir' = (n :> c) @@ dir
         /\ ops' = Append(ops, [op |-> "put", n |-> n, c |-> c])
Remove == \E n \in DOMAIN dir :
         /\ Do([op |-> "remove", n |-> n]) /\ dir' = [x \in DOMAIN dir \ {n} |-> dir[x]]
         /\ ops' = Append(ops, [op |-> "remove", n |-> n])
Wipe == /\ s.there /\ Do([op |-> "wipe"]) /\ dir' = [x \in {} |-> 0] /\ ops' = Append(ops, [op |-> "wipe"])
RECURSIVE AsSeq(_)
AsSeq(f) == IF DOMAIN f = {} THEN <<>>
            ELSE LET n == CHOOSE x \in DOMAIN f : TRUE
                 IN <<[n |-> n, c |-> f[n]]>> \o AsSeq([x \in DOMAIN f \ {n} |-> f[x]])
Extract == LET new == IF Refresh THEN ("a" :> 1 @@ "b" :> 2) @@ dir ELSE dir @@ ("a" :> 1 @@ "b" :> 2)
           IN /\ dir' = new
              /\ Do([op |-> "extract", user |-> AsSeq(new), else |-> <<>>, intact |-> TRUE])
              /\ ops' = Append(ops, [op |-> "extract"])
Show == /\ Len(ops) = Depth
        /\ PrintT(<<"BEHAVIOUR", ToJson(ops)>>)
        /\ ops' = Append(ops, [op |-> "end"]) /\ UNCHANGED <<s, dir, ok>>
Next == (More /\ (Put \/ Remove \/ Wipe \/ Extract)) \/ Show
Spec == Init /\ [][Next]_vars
Accepted == ok
=============================================================================
