------------------------------- MODULE TreeGen ------------------------------
(* Random histories of the list machine, printed for replay.               *)
EXTENDS TreeSeq, TLC, Json
CONSTANTS Steps, MaxLen, Bs
VARIABLES s, h, nxt, b, bias
vars == <<s, h, nxt, b, bias>>
Init == s = <<>> /\ h = <<>> /\ nxt = 1 /\ b \in Bs /\ bias \in {1, 2, 3, 4}
Op(k, x, y, v) == [k |-> k, a |-> x, b |-> y, v |-> v]
Do(o) == /\ s' = After(s, o) /\ h' = Append(h, o) /\ UNCHANGED <<b, bias>>
(* where to work: the ends, the middle or anywhere (kept for a whole run)  *)
Pos(n) == CASE bias = 1 -> {0} [] bias = 2 -> {n} [] bias = 3 -> {n \div 2} [] OTHER -> 0..n
Insert == \E p \in Pos(Len(s)) : /\ Len(s) < MaxLen
            /\ Do(Op("ins", p, 0, <<nxt>>)) /\ nxt' = nxt + 1
InsertMany == \E p \in Pos(Len(s)) : /\ Len(s) < MaxLen
            /\ Do(Op("ins", p, 0, [i \in 1..7 |-> nxt + i])) /\ nxt' = nxt + 8
Remove == \E p \in 0..Len(s)-1 : Do(Op("del", p, 1, <<>>)) /\ UNCHANGED nxt
RemoveMany == \E p \in 0..Len(s)-6 : Do(Op("del", p, 6, <<>>)) /\ UNCHANGED nxt
Query == \E k \in {"range", "iter", "get", "len", "pp", "lt"} : \E x \in 0..Len(s) :
            /\ Do(IF k = "range" THEN Op(k, x \div 2, x, <<>>)
                  ELSE IF k = "pp" THEN Op(k, 2 + x, 1, <<>>) ELSE Op(k, x, 0, <<>>))
            /\ UNCHANGED nxt
Mutate == \E k \in {"set", "add", "addall", "copy"} : \E x \in 0..Len(s)-1 :
            Do(Op(k, x, Len(s), <<x + 1>>)) /\ UNCHANGED nxt
More == Len(h) < Steps
Stop == /\ Len(h) = Steps /\ PrintT("GEN|" \o ToJson([B |-> b, ops |-> h]))
        /\ h' = Append(h, Op("end", 0, 0, <<>>)) /\ UNCHANGED <<s, nxt, b, bias>>
Next == \/ More /\ (Insert \/ InsertMany \/ Remove \/ RemoveMany \/ Query \/ Mutate)
        \/ Stop
Spec == Init /\ [][Next]_vars
TypeOK == Len(s) <= MaxLen + 8
=============================================================================
