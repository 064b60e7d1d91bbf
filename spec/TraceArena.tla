----------------------------- MODULE TraceArena -----------------------------
(* Recorded additions to the real store against SegmentsArena.             *)
(* ops: k, subs, res (<<>> ok, <<sx,sy,ex,ey>> refused), st, segs, in, out,*)
(* miss (elements of the path that are not traced completely), inv.        *)
EXTENDS SegmentsArena, Report, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES c, n, A, ok
vars == <<c, n, A, ok>>
Init == c \in 1..N /\ n = 0 /\ A = <<>> /\ ok = TRUE

(* Everything but the relation to the current addition.                    *)
Core(g) == SubSeq(g, 1, 8)
Why(o) ==
    IF o.st # "ok" THEN {<<o.st>>} ELSE
    LET open == OpenSubs(o)
        old == Len(A)
        same == Len(o.segs) >= old /\ \A i \in 1..old : Core(o.segs[i]) = Core(A[i])
    IN (IF same THEN {} ELSE {<<"earlier segments changed">>}) \cup
       (IF open = {}
        THEN (IF o.res = <<>> THEN {} ELSE {<<"refused", o.res>>}) \cup
             (IF same /\ ~Fits(o.segs, old + 1, SubpathsOf(o), 1, o.k) THEN {<<"segments do not trace the path">>} ELSE {}) \cup
             (IF o.miss = <<>> THEN {} ELSE {<<"elements not traced", o.miss>>})
        ELSE LET s == SubpathsOf(o)
                 named == {SubStart(s[k]) \o SubEnd(s[k]) : k \in open} IN
             (IF o.res \in named THEN {} ELSE {<<"open path not refused by its end points", o.res>>}) \cup
             (IF Len(o.segs) = old THEN {} ELSE {<<"store changed by a refused path">>})) \cup
       (IF \A i \in 1..Len(o.segs) : SegOK(o.segs[i]) THEN {} ELSE {<<"segment order, direction or monotonicity">>}) \cup
       (IF EnterOK(o.segs, o.in) THEN {} ELSE {<<"list of entrances">>}) \cup
       (IF ExitOK(o.segs, o.out) THEN {} ELSE {<<"list of exits">>}) \cup
       (IF o.inv = 1 THEN {} ELSE {<<"own invariants">>})
Step ==
    /\ ok /\ n < Len(Trace[c].ops)
    /\ LET o == Trace[c].ops[n + 1]  why == Why(o) IN
       /\ IF why = {} THEN TRUE ELSE Reject(c, Trace[c].key, <<n + 1, o.k>>, why)
       /\ ok' = (why = {})
       /\ A' = IF why = {} THEN o.segs ELSE A
    /\ n' = n + 1 /\ UNCHANGED c
Done == /\ n < 1000 /\ (~ok \/ n = Len(Trace[c].ops)) /\ n' = 1000
        /\ IF Trace[c].st = "ok" THEN TRUE ELSE Reject(c, Trace[c].key, <<"process">>, {<<Trace[c].st>>})
        /\ Finished(c, n) /\ UNCHANGED <<c, A, ok>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
TypeOK == n \in Nat
=============================================================================
