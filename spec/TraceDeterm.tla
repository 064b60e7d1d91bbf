----------------------------- MODULE TraceDeterm -----------------------------
(* Recorded schedules against Determinism.  A record has nt, nc and ev,    *)
(* events <<kind, thread, call, fingerprint..>>: 1 start, 2 answer, 3 the  *)
(* answer to a call in another process.                                    *)
EXTENDS Determinism, Report, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES c, n, s, judged, pc
vars == <<c, n, s, judged, pc>>
Init == c \in 1..N /\ n = 0 /\ s = Fresh(Trace[c].nt, Trace[c].nc) /\ judged = 0 /\ pc = "run"
Ev == Trace[c].ev[n + 1]
Fp(e) == SubSeq(e, 4, Len(e))
StartEv == Ev[1] = 1 /\ CanStart(s, Ev[2], Ev[3]) /\ s' = Start(s, Ev[2], Ev[3]) /\ UNCHANGED <<judged, pc>>
Judge(call, next) ==
    /\ IF Agrees(s, call, Fp(Ev)) THEN TRUE
       ELSE Reject(c, Trace[c].key, <<"event", n + 1, "call", call, Trace[c].calls[call]>>, {<<s.known[call], Fp(Ev)>>})
    /\ pc' = IF Agrees(s, call, Fp(Ev)) THEN "run" ELSE "stop"
    /\ s' = next /\ judged' = judged + (IF s.known[call] = <<>> THEN 0 ELSE 1)
AnswerEv == Ev[1] = 2 /\ CanFinish(s, Ev[2]) /\ s.busy[Ev[2]] = Ev[3] /\ Judge(Ev[3], Finish(s, Ev[2], Fp(Ev)))
ChildEv == Ev[1] = 3 /\ Judge(Ev[3], Answer(s, Ev[3], Fp(Ev)))
Step == /\ pc = "run" /\ n < Len(Trace[c].ev) /\ Trace[c].st = "ok" /\ n' = n + 1 /\ UNCHANGED c
        /\ (StartEv \/ AnswerEv \/ ChildEv)
Done == /\ pc # "done" /\ (pc = "stop" \/ n = Len(Trace[c].ev) \/ Trace[c].st # "ok") /\ pc' = "done"
        /\ IF Trace[c].st = "ok" THEN TRUE ELSE Reject(c, Trace[c].key, <<"process">>, {<<Trace[c].st>>})
        /\ Finished(c, judged) /\ UNCHANGED <<c, n, s, judged>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
TypeOK == n \in Nat
=============================================================================
