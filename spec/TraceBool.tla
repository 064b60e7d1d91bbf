----------------------------- MODULE TraceBool ------------------------------
(***************************************************************************)
(* Conformance of recorded boolean operations with BoolOp and Contours.    *)
(*                                                                         *)
(* Each record is one pair of inputs and up to eight (rule, operation)     *)
(* runs of the real code.  For integer inputs ("exact") the windings are   *)
(* computed here, from the same integers the code was given; for curves    *)
(* the record carries the winding numbers measured by an independent       *)
(* flattening, and the distance from the inputs, in thousandths of the     *)
(* margin.  Prop selects the property to judge.                            *)
(*                                                                         *)
(* Behaviour: Measure (once) ; Judge (once per run) ; Done.  A step that   *)
(* the property forbids is Reject, which names case, run and reason.       *)
(***************************************************************************)
EXTENDS Geometry, BoolOp, Contours, Report, Json, IOUtils

CONSTANT Prop

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

(* Boundary deviation allowed, in tenths of the accuracy.                  *)
MaxDev == 100

VARIABLES c, pc, n, mem, judged
vars == <<c, pc, n, mem, judged>>

Init == /\ c \in 1..N /\ pc = "measure" /\ n = 0 /\ mem = <<>> /\ judged = 0

NeedsMem == Prop \in {"P01", "P09"}

(* <<wa, wb>> of each sample, or <<>> where the sample is too close to an  *)
(* input boundary to be judged.                                            *)
Measure(t) ==
    IF ~NeedsMem THEN <<>>
    ELSE IF t.exact = 1
    THEN [s \in 1..Len(t.S) |->
            LET px == t.S[s][1]  py == t.S[s][2] IN
            IF Near(t.A, px, py, t.m) \/ Near(t.B, px, py, t.m) THEN <<>>
            ELSE <<Winding(t.A, px, py), Winding(t.B, px, py)>>]
    ELSE [s \in 1..Len(t.S) |->
            IF t.S[s][1] < t.m THEN <<>> ELSE <<t.S[s][2], t.S[s][3]>>]

MeasureStep ==
    /\ pc = "measure"
    /\ mem' = Measure(Trace[c])
    /\ pc' = IF Trace[c].st = "ok" THEN "judge" ELSE "dead"
    /\ UNCHANGED <<c, n, judged>>

(* Samples that the run gets wrong.                                        *)
WrongPoints(t, r) ==
    {s \in 1..Len(t.S) : mem[s] # <<>> /\
        InsideByContours(r.W[s]) # InResult(r.r, r.o, mem[s][1], mem[s][2])}
Away(r) == {s \in 1..Len(r.W) : r.N[s] = 0}

Reasons(t, r) ==
    IF r.st # "ok"
    THEN IF Prop \in {"P01", "P05", "P09"} THEN {<<r.st, r.msg>>} ELSE {}
    ELSE CASE Prop = "P01" ->
                LET w == WrongPoints(t, r) IN
                IF w = {} THEN {} ELSE {<<"wrong points", w>>}
           [] Prop = "P09" ->
                LET w == WrongPoints(t, r) IN
                (IF w = {} THEN {} ELSE {<<"wrong points", w>>}) \cup
                (IF r.dev > MaxDev THEN {<<"boundary strays, tenths of the accuracy", r.dev>>} ELSE {})
           [] Prop = "P02" ->
                (IF ContourShapeOK(r.K) THEN {} ELSE {<<"contour not closed, not finite or badly oriented", r.K>>}) \cup
                (LET w == {s \in Away(r) : ~WindsOnce(r.W[s])} IN
                 IF w = {} THEN {} ELSE {<<"winding not 0 or -1 at samples", w>>})
           [] Prop = "P03" ->
                (IF StructureOK(r.K, r.G) THEN {} ELSE {<<"not a forest / orientation / grouping", r.K, r.G>>}) \cup
                (IF ~IsForest(r.K) THEN {} ELSE
                 LET w == {s \in Away(r) : ~IsChain(r.K, r.W[s])} IN
                 IF w = {} THEN {} ELSE {<<"enclosing contours are no chain at samples", w>>})
           [] Prop = "P04" ->
                IF r.dev > MaxDev THEN {<<"boundary strays, tenths of the accuracy", r.dev>>} ELSE {}
           [] Prop = "P05" -> {}

Judge ==
    /\ pc = "judge" /\ n < Len(Trace[c].runs)
    /\ LET t == Trace[c]  r == t.runs[n + 1]  why == Reasons(t, r) IN
       /\ IF why = {} THEN TRUE ELSE Reject(c, t.key, <<"rule", r.r, "op", r.o>>, why)
       /\ judged' = judged + (IF Prop \in {"P01", "P09"}
                              THEN Cardinality({s \in DOMAIN mem : mem[s] # <<>>})
                              ELSE IF r.st = "ok" THEN 1 + Len(r.W) ELSE 1)
    /\ n' = n + 1
    /\ UNCHANGED <<c, pc, mem>>

(* The process died (crash, out of memory) or was stopped (hang).          *)
Dead ==
    /\ pc = "dead"
    /\ IF Prop \in {"P01", "P05", "P09"} THEN Reject(c, Trace[c].key, <<"process">>, {<<Trace[c].st>>}) ELSE TRUE
    /\ pc' = "done" /\ Finished(c, 1)
    /\ UNCHANGED <<c, n, mem, judged>>

Done ==
    /\ pc = "judge" /\ n = Len(Trace[c].runs)
    /\ pc' = "done" /\ Finished(c, judged)
    /\ UNCHANGED <<c, n, mem, judged>>

Next == MeasureStep \/ Judge \/ Dead \/ Done
Spec == Init /\ [][Next]_vars

TypeOK == /\ pc \in {"measure", "judge", "dead", "done"} /\ n \in 0..8 /\ judged \in Nat
(* A recorded finite input is never outside the specified domain.          *)
RecordOK == LET t == Trace[c] IN
    /\ \A i \in 1..Len(t.runs) : t.runs[i].r \in Rules /\ t.runs[i].o \in Ops
    /\ t.m > 0
=============================================================================
