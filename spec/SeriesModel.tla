---------------------------- MODULE SeriesModel ----------------------------
(***************************************************************************)
(* Small files of rows and ranges. Loaded times never go back, start at    *)
(* zero unless the first row is left out, and without ranges every row is  *)
(* loaded. Each file is printed for replay.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, Times

S == INSTANCE Series

VARIABLES rows, ranges, shown
vars == <<rows, ranges, shown>>
Cfg == [rows |-> rows, ranges |-> ranges]
Init == /\ rows = <<>> /\ shown = FALSE
        /\ ranges \in {<<>>, <<<<0, 2>>>>, <<<<1, -1>>>>, <<<<0, 1>>, <<2, 3>>>>, <<<<1, 3>>, <<2, -1>>>>}
Add == /\ ~shown /\ Len(rows) < N
       /\ \E t \in Times, kind \in {"row", "row2", "note", "no"} :
            rows' = Append(rows, [note |-> kind = "note", keep |-> kind # "no", t |-> t,
                                  x |-> IF kind = "row2" THEN <<1, Len(rows)>> ELSE <<2, Len(rows)>>])
       /\ UNCHANGED <<ranges, shown>>
Show == /\ ~shown /\ S!Kept(Cfg) # <<>>
        /\ PrintT(<<"BEHAVIOUR", ToJson(Cfg)>>)
        /\ shown' = TRUE /\ UNCHANGED <<rows, ranges>>
Next == Add \/ Show
Spec == Init /\ [][Next]_vars

X == S!Expected(Cfg)
Onwards == \A k \in 1..Len(X)-1 : X[k].t <= X[k+1].t
FromZero == (X # <<>> /\ S!In(Cfg, 1)) => X[1].t = 0
AllRows == ranges = <<>> => Len(X) = Len(S!Kept(Cfg))
NotMore == Len(X) <= Len(S!Kept(Cfg))
=============================================================================
