------------------------------ MODULE DetermGen ------------------------------
(* Schedules: <<1, t, c>> thread t starts call c, <<2, t, 0>> its answer   *)
(* is awaited, <<3, 0, 0>> another process makes all the calls in another  *)
(* order.  What runs between a start and the awaiting of its answer may    *)
(* run at the same time.                                                   *)
EXTENDS Determinism, TLC, Json, FiniteSets
CONSTANTS T, C, Steps
VARIABLES s, prog, kids, done, out
vars == <<s, prog, kids, done, out>>
Init == s = Fresh(T, C) /\ prog = <<>> /\ kids = 0 /\ done = [c \in 1..C |-> 0] /\ out = FALSE
Long == Len(prog) >= Steps
DoStart == ~Long /\ \E t \in 1..T : \E c \in 1..C :
    /\ CanStart(s, t, c) /\ done[c] < 4 /\ s' = Start(s, t, c) /\ prog' = Append(prog, <<1, t, c>>) /\ UNCHANGED <<kids, done, out>>
DoFinish == \E t \in 1..T :
    /\ CanFinish(s, t) /\ done' = [done EXCEPT ![s.busy[t]] = @ + 1]
    /\ s' = Finish(s, t, <<s.busy[t]>>) /\ prog' = Append(prog, <<2, t, 0>>) /\ UNCHANGED <<kids, out>>
DoChild == ~Long /\ kids < 1 /\ Len(prog) > 3 /\ kids' = kids + 1 /\ prog' = Append(prog, <<3, 0, 0>>) /\ UNCHANGED <<s, done, out>>
Idle == \A t \in 1..T : s.busy[t] = 0
Emit == Long /\ Idle /\ ~out /\ out' = TRUE /\ PrintT("GEN|" \o ToJson([prog |-> prog])) /\ UNCHANGED <<s, prog, kids, done>>
Next == DoStart \/ DoFinish \/ DoChild \/ Emit
Spec == Init /\ [][Next]_vars
(* In the machine itself every answer to a call is the same.               *)
TypeOK == \A c \in 1..C : s.known[c] \in {<<>>, <<c>>}
=============================================================================
