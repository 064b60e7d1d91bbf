------------------------------ MODULE TraceTree -----------------------------
(* Recorded histories of the real container against TreeSeq.               *)
(* Record: B, ops (each with r, the answer, and inv: 1 if the container's  *)
(* own consistency check passed afterwards, st: ok or the panic).          *)
EXTENDS TreeSeq, Report, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES c, n, s, ok
vars == <<c, n, s, ok>>
Init == c \in 1..N /\ n = 0 /\ s = <<>> /\ ok = TRUE
Ops(t) == t.ops
Why(o) == (IF o.st # "ok" THEN {<<o.st>>} ELSE {}) \cup
          (IF o.st # "ok" \/ Answer(s, o, o.r) THEN {} ELSE {<<"answer", o.r>>}) \cup
          (IF o.inv = 1 THEN {} ELSE {<<"unbalanced or inconsistent tree">>})
Step ==
    /\ ok /\ n < Len(Ops(Trace[c]))
    /\ LET o == Ops(Trace[c])[n + 1]  why == Why(o) IN
       /\ IF why = {} THEN TRUE ELSE Reject(c, Trace[c].key, <<n + 1, o.k, o.a, o.b>>, why)
       /\ ok' = (why = {})
       /\ s' = IF why = {} THEN After(s, o) ELSE s
    /\ n' = n + 1 /\ UNCHANGED c
Done == /\ ok /\ n = Len(Ops(Trace[c])) /\ n' = n + 1
        /\ IF Trace[c].st = "ok" THEN TRUE ELSE Reject(c, Trace[c].key, <<"process">>, {<<Trace[c].st>>})
        /\ Finished(c, n) /\ UNCHANGED <<c, s, ok>>
Bad == /\ ~ok /\ n < 1000000 /\ n' = 1000000 /\ Finished(c, 1) /\ UNCHANGED <<c, s, ok>>
Next == Step \/ Done \/ Bad
Spec == Init /\ [][Next]_vars
TypeOK == n \in Nat
=============================================================================
