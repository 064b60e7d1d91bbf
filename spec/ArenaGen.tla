------------------------------ MODULE ArenaGen ------------------------------
(* Histories of additions over a small grid, printed for replay.  The      *)
(* addition under construction is built element by element, so that every  *)
(* mixture of moves, lines, curves and closings (also in the middle of a   *)
(* path) can come up.                                                      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS G, MaxOps, MaxEls
VARIABLES ops, cur, kind, start, pen
vars == <<ops, cur, kind, start, pen>>
P == (0..G) \X (0..G)
Init == ops = <<>> /\ cur = <<>> /\ kind = "none" /\ start = <<0, 0>> /\ pen = <<0, 0>>
Begin == /\ kind = "none" /\ Len(ops) < MaxOps
         /\ \E k \in {"poly", "points", "bez", "bez", "open"} : kind' = k
         /\ cur' = <<>> /\ UNCHANGED <<ops, start, pen>>
IsPath == kind \in {"bez", "open"}
Room == Len(cur) < MaxEls
Move == /\ IsPath /\ Room /\ \E p \in P : cur' = Append(cur, <<0, p[1], p[2]>>) /\ start' = p /\ pen' = p
        /\ UNCHANGED <<ops, kind>>
Line == /\ kind # "none" /\ Room /\ (IsPath => cur # <<>>)
        /\ \E p \in P : cur' = Append(cur, <<1, p[1], p[2]>>) /\ pen' = p
        /\ UNCHANGED <<ops, kind, start>>
Back == /\ IsPath /\ Room /\ cur # <<>> /\ cur' = Append(cur, <<1, start[1], start[2]>>) /\ pen' = start
        /\ UNCHANGED <<ops, kind, start>>
Quad == /\ IsPath /\ Room /\ cur # <<>>
        /\ \E p \in P : \E q \in P : cur' = Append(cur, <<2, p[1], p[2], q[1], q[2]>>) /\ pen' = p
        /\ UNCHANGED <<ops, kind, start>>
Cubic == /\ IsPath /\ Room /\ cur # <<>>
         /\ \E p \in P : \E q \in P : \E r \in {<<0, G>>, <<G, 0>>, <<1, 2>>, <<2, 2>>} :
              cur' = Append(cur, <<3, p[1], p[2], q[1], q[2], r[1], r[2]>>) /\ pen' = p
         /\ UNCHANGED <<ops, kind, start>>
CloseIt == /\ IsPath /\ Room /\ cur # <<>> /\ cur' = Append(cur, <<4, start[1], start[2]>>) /\ pen' = start
           /\ UNCHANGED <<ops, kind, start>>
(* another polyline in the same call *)
Cut == /\ kind = "poly" /\ Room /\ cur' = Append(cur, <<0, 0, 0>>) /\ UNCHANGED <<ops, kind, start, pen>>
End == /\ kind # "none" /\ (Len(cur) >= 3 \/ Len(ops) % 3 = 0)
       /\ ops' = Append(ops, [k |-> kind, els |-> cur]) /\ kind' = "none" /\ cur' = <<>>
       /\ UNCHANGED <<start, pen>>
Emit == /\ Len(ops) = MaxOps /\ PrintT("GEN|" \o ToJson([ops |-> ops])) /\ ops' = Append(ops, "end")
         /\ UNCHANGED <<cur, kind, start, pen>>
Next == Begin \/ Move \/ Line \/ Back \/ Quad \/ Cubic \/ CloseIt \/ Cut \/ End \/ Emit
Spec == Init /\ [][Next]_vars
TypeOK == Len(cur) <= MaxEls
=============================================================================
