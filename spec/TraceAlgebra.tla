---------------------------- MODULE TraceAlgebra ----------------------------
(* Recorded programs of operations against SetAlgebra.  A record has       *)
(*  exact, A (rings per input), S (samples), m as in TraceBool, or in S    *)
(*  the measured winding numbers of the inputs;                            *)
(*  steps: [s: <<rule, op, i, j>>, st, W (winding of the result at each    *)
(*  sample, summed over its contours), thin (no contour with an area)].    *)
EXTENDS SetAlgebra, Geometry, Report, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES c, pc, n, w, tabs, judged
vars == <<c, pc, n, w, tabs, judged>>
Init == c \in 1..N /\ pc = "measure" /\ n = 0 /\ w = <<>> /\ tabs = <<>> /\ judged = 0

NIn(t) == t.nin
(* Samples too close to an input count for nothing: they get windings 0    *)
(* everywhere and are left out of the judgement.                           *)
Far(t) == IF t.exact = 0 THEN 1..Len(t.S)
          ELSE {s \in 1..Len(t.S) : \A k \in 1..NIn(t) : ~Near(t.A[k], t.S[s][1], t.S[s][2], t.m)}
Measure(t) == [k \in 1..NIn(t) |->
    IF t.exact = 0 THEN [s \in 1..Len(t.S) |-> t.S[s][k]]
    ELSE [s \in 1..Len(t.S) |-> Winding(t.A[k], t.S[s][1], t.S[s][2])]]
Start == /\ pc = "measure"
         /\ w' = Measure(Trace[c])
         /\ pc' = IF Trace[c].st = "ok" THEN "run" ELSE "dead"
         /\ UNCHANGED <<c, n, tabs, judged>>

Why(t, o, new, rows) ==
    IF o.st # "ok" THEN {<<o.st>>} ELSE
    (LET bad == {s \in Far(t) : o.W[s] # new[s]} IN IF bad = {} THEN {} ELSE {<<"wrong points", bad>>}) \cup
    (IF rows = {} /\ o.thin # 1 THEN {<<"the result should be empty">>} ELSE {})
Step ==
    /\ pc = "run" /\ n < Len(Trace[c].steps)
    /\ LET t == Trace[c]  o == t.steps[n + 1]
           new == StepWinds(w, o.s)  rows == StepRows(NIn(t), tabs, o.s)  why == Why(t, o, new, rows) IN
       /\ IF why = {} THEN TRUE ELSE Reject(c, t.key, <<"step", n + 1, o.s>>, why)
       /\ w' = Append(w, new) /\ tabs' = Append(tabs, rows)
       /\ judged' = judged + Len(o.W)
       /\ pc' = IF why = {} THEN "run" ELSE "stop"
    /\ n' = n + 1 /\ UNCHANGED c
Dead == /\ pc = "dead" /\ Reject(c, Trace[c].key, <<"process">>, {<<Trace[c].st>>})
        /\ pc' = "done" /\ Finished(c, 1) /\ UNCHANGED <<c, n, w, tabs, judged>>
Done == /\ (pc = "stop" \/ (pc = "run" /\ n = Len(Trace[c].steps)))
        /\ pc' = "done" /\ Finished(c, judged) /\ UNCHANGED <<c, n, w, tabs, judged>>
Next == Start \/ Step \/ Dead \/ Done
Spec == Init /\ [][Next]_vars
TypeOK == Len(w) <= 20 /\ \A i \in 1..Len(tabs) : tabs[i] \subseteq Rows(NIn(Trace[c]))
=============================================================================
