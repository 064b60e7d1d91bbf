----------------------------- MODULE Determinism -----------------------------
(***************************************************************************)
(* Threads that make calls.  A call is an operation together with its      *)
(* inputs.  The answer to a call is a function of the call alone: once a   *)
(* call has been answered anywhere, every later answer to the same call,   *)
(* on whatever thread, after whatever other calls and in whatever process, *)
(* has the same fingerprint.                                               *)
(*                                                                         *)
(* State: busy[t], the call thread t is making (0: none); known[c], the    *)
(* fingerprint of the answers to c so far (<<>>: not answered yet).        *)
(***************************************************************************)
EXTENDS Integers, Sequences
Fresh(T, C) == [busy |-> [t \in 1..T |-> 0], known |-> [c \in 1..C |-> <<>>]]
CanStart(s, t, c) == s.busy[t] = 0
Start(s, t, c) == [s EXCEPT !.busy[t] = c]
CanFinish(s, t) == s.busy[t] # 0
Agrees(s, c, fp) == s.known[c] \in {<<>>, fp}
Answer(s, c, fp) == [s EXCEPT !.known[c] = fp]
Finish(s, t, fp) == Answer([s EXCEPT !.busy[t] = 0], s.busy[t], fp)
=============================================================================
