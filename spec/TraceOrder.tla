----------------------------- MODULE TraceOrder -----------------------------
(***************************************************************************)
(* Recorded curve comparisons against CurveOrder.                          *)
(* Heights are ranks.  S: <<height, least, greatest>>: bounds for          *)
(* x(second) - x(first) at heights within the accuracy of the given one,   *)
(* in 1/10000 of the tolerance.  acc: the accuracy in that unit.           *)
(* Cache histories: <<0, n, m>> cache n is made, a copy of cache m;        *)
(* <<1, i, j, answer, fresh, direct, back, k>>: all answers are numbers of *)
(* exact values: from cache k, from a fresh cache, computed directly, and  *)
(* the mirrored answer of a fresh cache asked for <<j, i>>.                *)
(***************************************************************************)
EXTENDS CurveOrder, Report, Json, IOUtils
CONSTANT Prop
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLES c, n, memo, judged
vars == <<c, n, memo, judged>>
Init == c \in 1..N /\ n = 0 /\ memo = << <<>> >> /\ judged = 0

Tol == 10000
Slack == 3
(* Which labels do the measurements allow?                                 *)
Allowed(acc, lo, hi) ==
    (IF hi >= Tol - acc - Slack THEN {-1} ELSE {}) \cup
    (IF lo <= -(Tol - acc) + Slack THEN {1} ELSE {}) \cup
    (IF lo <= Tol + acc + Slack /\ hi >= -(Tol + acc) - Slack THEN {0} ELSE {})

QueryOK(l, q) ==
    CASE q[1] = 1 -> q[3] \in LabelsAt(l, q[2])
      [] q[1] = 2 -> LET k == FirstAfter(l, q[2], 1) IN k # 0 /\ l[k] = <<q[3], q[4], q[5]>>
      [] q[1] = 3 -> q[3] = OrderAfter(l, q[2])
      [] q[1] = 4 -> LET m == NextMeet(l, q[2]) IN
            IF m[1] = 0 THEN Len(q) = 3 /\ q[3] = 0
            ELSE /\ Len(q) = 4 /\ q[4] = m[1]
                 /\ IF m[2] = 0 THEN q[3] = q[2] ELSE l[m[2]][1] <= q[3] /\ q[3] <= l[m[2]][2]

PairWhy(t) ==
    IF t.st # "ok" THEN {<<t.st>>}
    ELSE CASE Prop = "P17" ->
           (IF Partition(t.L, t.lo, t.hi) THEN {} ELSE {<<"not a partition of the common heights", t.L>>}) \cup
           (LET bad == {i \in 1..Len(t.S) : LabelsAt(t.L, t.S[i][1]) \cap Allowed(t.acc, t.S[i][2], t.S[i][3]) = {}}
            IN IF bad = {} THEN {} ELSE {<<"wrong label", {t.S[i] : i \in bad}, t.L, "accuracy", t.acc>>})
      [] Prop = "P18" ->
           (LET bad == {i \in 1..Len(t.Q) : ~QueryOK(t.L, t.Q[i])}
            IN IF bad = {} THEN {} ELSE {<<"query", {t.Q[i] : i \in bad}, t.L>>}) \cup
           (IF t.F = Flip(t.L) THEN {} ELSE {<<"mirrored", t.F, t.L>>}) \cup
           (IF Partition(t.W, t.lo, t.hi) THEN {} ELSE {<<"widened is no partition", t.W, t.L>>}) \cup
           (IF Widened(t.L, t.W) THEN {} ELSE {<<"widened", t.W, t.L>>}) \cup
           (IF WidenedBySlop(t.L, t.W, t.H[1], t.H[2]) THEN {} ELSE {<<"widened by another amount", t.W, t.L, t.H>>}) \cup
           (IF t.inv = 1 THEN {} ELSE {<<"own invariants">>})
      [] OTHER -> {}

Pair ==
    /\ Trace[c].kind = "pair" /\ n = 0
    /\ LET t == Trace[c]  why == PairWhy(t) IN
       /\ IF why = {} THEN TRUE ELSE Reject(c, t.key, <<t.fam>>, why)
       /\ judged' = IF Prop = "P17" THEN Len(t.S) ELSE Len(t.Q) + 3
    /\ n' = 1000 /\ UNCHANGED <<c, memo>>

(* The cache as a machine: a pair that was asked once keeps its answer, in *)
(* that cache and in the copies made of it later.  memo[k]: the answers of *)
(* cache k so far.                                                         *)
Memo(k, i, j) == {m \in {memo[k][x] : x \in 1..Len(memo[k])} : m[1] = i /\ m[2] = j}
CacheWhy(o) ==
    LET i == o[2]  j == o[3]  known == Memo(o[8], i, j) IN
    (IF o[5] = o[6] THEN {} ELSE {<<"a fresh cache differs from a direct comparison", o>>}) \cup
    (IF o[4] \in {o[5], o[7]} THEN {} ELSE {<<"cached answer is not a fresh one", o>>}) \cup
    (IF \A m \in known : m[3] = o[4] THEN {} ELSE {<<"answer changed", o>>})
Cache ==
    /\ Trace[c].kind = "cache" /\ n < Len(Trace[c].ops)
    /\ LET t == Trace[c]  o == t.ops[n + 1] IN
       IF o[1] = 0 THEN memo' = Append(memo, memo[o[3]]) /\ UNCHANGED judged
       ELSE LET why == IF Prop = "P18" THEN CacheWhy(o) ELSE {} IN
            /\ IF why = {} THEN TRUE ELSE Reject(c, t.key, <<n + 1>>, why)
            /\ memo' = [memo EXCEPT ![o[8]] = Append(@, <<o[2], o[3], o[4]>>)]
            /\ judged' = judged + 1
    /\ n' = n + 1 /\ UNCHANGED c
CacheEnd ==
    /\ Trace[c].kind = "cache" /\ n = Len(Trace[c].ops) /\ n < 1000
    /\ IF Trace[c].st = "ok" THEN TRUE ELSE Reject(c, Trace[c].key, <<"cache">>, {<<Trace[c].st>>})
    /\ n' = 1000 /\ UNCHANGED <<c, memo, judged>>
End == n = 1000 /\ n' = 1001 /\ Finished(c, judged) /\ UNCHANGED <<c, memo, judged>>
Next == Pair \/ Cache \/ CacheEnd \/ End
Spec == Init /\ [][Next]_vars
TypeOK == n \in Nat
=============================================================================
