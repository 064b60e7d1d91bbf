----------------------------- MODULE TraceValid -----------------------------
(* Recorded answers of the entry points against Validation.  A record has  *)
(* els (both operands, each ended by <<9>>) and ans, a sequence of         *)
(* [api, r, p]: r the answer, p the named points (ranks sx, sy, ex, ey).   *)
(* "binary_op" promises to find values that are not finite; the others are *)
(* only called where there are none.                                       *)
EXTENDS Validation, Report, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES c, n, s
vars == <<c, n, s>>
Init == c \in 1..N /\ n = 0 /\ s = Fresh
Step == /\ n < Len(Trace[c].els) /\ s' = Read(s, Trace[c].els[n + 1]) /\ n' = n + 1 /\ UNCHANGED c
Answer(a) == IF a.r = "open" THEN <<"open", <<a.p[1], a.p[2]>>, <<a.p[3], a.p[4]>>>> ELSE <<a.r>>
Wrong(t) == {i \in 1..Len(t.ans) : ~Allowed(s.bad, Answer(t.ans[i]))}
Why(t) == (IF t.st = "ok" THEN {} ELSE {<<t.st>>}) \cup {<<t.ans[i].api, Answer(t.ans[i]), s.bad>> : i \in Wrong(t)}
Done == /\ n = Len(Trace[c].els) /\ n' = 1000000
        /\ LET why == Why(Trace[c]) IN IF why = {} THEN TRUE ELSE Reject(c, Trace[c].key, <<"P06">>, why)
        /\ Finished(c, Len(Trace[c].ans)) /\ UNCHANGED <<c, s>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
TypeOK == n \in Nat
=============================================================================
