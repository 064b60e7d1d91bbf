---------------------------- MODULE TraceRewrite ----------------------------
(* Recorded rewrites of inputs against Rewrite.  A record has exact, A, S, *)
(* m as in TraceAlgebra and steps: [rw, calls: [[r: <<rule, op>>, st, W]]] *)
(* where W is the winding of the result at each (travelling) sample.       *)
(* The first step has rw = <<0, 0, 0>>: the inputs as they came.           *)
EXTENDS Rewrite, Geometry, Report, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES c, pc, n, st, judged
vars == <<c, pc, n, st, judged>>
Init == c \in 1..N /\ pc = "measure" /\ n = 0 /\ st = [w |-> <<<<>>, <<>>>>, par |-> FALSE, e |-> 0] /\ judged = 0
Far(t) == IF t.exact = 0 THEN 1..Len(t.S)
          ELSE {s \in 1..Len(t.S) : \A k \in {1, 2} : ~Near(t.A[k], t.S[s][1], t.S[s][2], t.m)}
Measure(t) == [k \in {1, 2} |->
    IF t.exact = 0 THEN [s \in 1..Len(t.S) |-> t.S[s][k]]
    ELSE [s \in 1..Len(t.S) |-> Winding(t.A[k], t.S[s][1], t.S[s][2])]]
Start == /\ pc = "measure"
         /\ st' = LET w == Measure(Trace[c]) IN [st EXCEPT !.w = <<w[1], w[2]>>]
         /\ pc' = IF Trace[c].st = "ok" THEN "run" ELSE "dead"
         /\ UNCHANGED <<c, n, judged>>
Bad(t, s, k) ==
    IF k.st # "ok" THEN {<<k.st>>}
    ELSE IF k.r[1] \notin Rule(s) THEN {}
    ELSE LET e == Expected(s, k.r[1], k.r[2])
             b == {p \in Far(t) : k.W[p] # (IF p \in e THEN -1 ELSE 0)} IN
         IF b = {} THEN {} ELSE {<<"wrong points", b>>}
Step ==
    /\ pc = "run" /\ n < Len(Trace[c].steps)
    /\ LET t == Trace[c]  o == t.steps[n + 1]
           s == Effect(st, o.rw)
           bad == {i \in 1..Len(o.calls) : Bad(t, s, o.calls[i]) # {}} IN
       /\ IF bad = {} THEN TRUE
          ELSE Reject(c, t.key, <<"step", n, o.rw>>, {<<o.calls[i].r, Bad(t, s, o.calls[i])>> : i \in bad})
       /\ st' = s /\ judged' = judged + Len(o.calls) * Len(t.S)
       /\ pc' = IF bad = {} THEN "run" ELSE "stop"
    /\ n' = n + 1 /\ UNCHANGED c
Dead == /\ pc = "dead" /\ Reject(c, Trace[c].key, <<"process">>, {<<Trace[c].st>>})
        /\ pc' = "done" /\ Finished(c, 1) /\ UNCHANGED <<c, n, st, judged>>
Done == /\ (pc = "stop" \/ (pc = "run" /\ n = Len(Trace[c].steps)))
        /\ pc' = "done" /\ Finished(c, judged) /\ UNCHANGED <<c, n, st, judged>>
Next == Start \/ Step \/ Dead \/ Done
Spec == Init /\ [][Next]_vars
TypeOK == st.e \in -10000..10000
=============================================================================
