----------------------------- MODULE TraceSweep -----------------------------
(***************************************************************************)
(* Recorded sweeps against SweepLine.  One behaviour per record, one step  *)
(* per line.  A line: y, b (listed below it), h (up to three heights from  *)
(* this line to the next: for each listed segment the interval, in tenths  *)
(* of the accuracy, in which it lies near that height), r (its ranges).    *)
(* A range: o, n (its segments in the old and in the new order), e (its    *)
(* events; the last entry is the distance from the segment in hundredths   *)
(* of the accuracy), at (connections up and down at each position).        *)
(* g: by how much successive ranges overlap, hundredths of the accuracy.   *)
(***************************************************************************)
EXTENDS SweepLine, Report, Json, IOUtils
CONSTANTS Prop, Slack, Near
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLES c, k, below, strand, judged
vars == <<c, k, below, strand, judged>>
Segs == Trace[c].segs
Lines == Trace[c].lines
Init == /\ c \in 1..N /\ k = 0 /\ below = <<>> /\ judged = 0
        /\ strand = [s \in 1..Len(Trace[c].segs) |-> 0]

Say(why) == IF why = {} THEN TRUE ELSE Reject(c, Trace[c].key, <<"line", k + 1>>, why)

ListWhy(t, y0) ==
    LET S == Segs  between(a, b, z) == a < z /\ z < b IN
    (IF y0 < t.y THEN {} ELSE {<<"heights do not increase">>}) \cup
    (IF \E s \in 1..Len(S) : between(y0, t.y, S[s][1]) \/ between(y0, t.y, S[s][2]) THEN {<<"a start or an end is skipped">>} ELSE {}) \cup
    (IF NoRepeat(t.b) THEN {} ELSE {<<"listed twice", t.b>>}) \cup
    (LET want == Present(S, t.y)  have == ToSet(t.b) IN
     IF want = have THEN {} ELSE {<<"missing", want \ have, "excess", have \ want>>}) \cup
    UNION {LET bad == Inverted(t.h[j], Slack) IN IF bad = {} THEN {} ELSE {<<"order", j, bad>>} : j \in 1..Len(t.h)}

Cat(seqs) == FoldLeft(LAMBDA a, x : a \o x, <<>>, seqs)
RangeWhy(old, new, r) ==
    LET up == {r.e[i][2] : i \in {i \in 1..Len(r.e) : r.e[i][4] = 1}}
        dn == {r.e[i][2] : i \in {i \in 1..Len(r.e) : r.e[i][6] = 1}}
        xs == {r.e[i][3] : i \in 1..Len(r.e)} \cup {r.e[i][5] : i \in 1..Len(r.e)}
        upAt(x) == {r.e[i][2] : i \in {i \in 1..Len(r.e) : r.e[i][4] = 1 /\ r.e[i][3] = x}}
        dnAt(x) == {r.e[i][2] : i \in {i \in 1..Len(r.e) : r.e[i][6] = 1 /\ r.e[i][5] = x}}
    IN (IF BatchesOK(r.e) THEN {} ELSE {<<"batches", r.e>>}) \cup
       (IF r.o = Only(old, up) THEN {} ELSE {<<"old order", r.o, Only(old, up)>>}) \cup
       (IF r.n = Only(new, dn) THEN {} ELSE {<<"new order", r.n, Only(new, dn)>>}) \cup
       (IF /\ {r.at[i][1] : i \in 1..Len(r.at)} = xs
           /\ \A i \in 1..Len(r.at)-1 : r.at[i][1] < r.at[i+1][1]
           /\ \A i \in 1..Len(r.at) : LET x == r.at[i][1] IN
                 r.at[i][2] = Only(r.o, upAt(x)) /\ r.at[i][3] = Only(r.n, dnAt(x))
        THEN {} ELSE {<<"connections", r.at, r.e>>})

LineWhy(t, ev, have, nxt) ==
    LET S == Segs
        piece == [s \in have |-> SelectSeq(ev, LAMBDA e : e[2] = s)]
        (* within a range the positions agree with both orders *)
        Pos(l, es, i) == LET f == [s \in {es[j][2] : j \in 1..Len(es)} |-> (CHOOSE e \in ToSet(es) : e[2] = s)[i]]
                             m == Only(l, DOMAIN f) IN [j \in 1..Len(m) |-> f[m[j]]]
        ux(j) == Pos(below, SelectSeq(t.r[j].e, LAMBDA e : e[4] = 1), 3)
        dx(j) == Pos(t.b, SelectSeq(t.r[j].e, LAMBDA e : e[6] = 1), 5)
    IN (LET bad == {s \in have : s = 0 \/ ~StrandOK(S[s], t.y, strand[s], piece[s])}
        IN IF bad = {} THEN {} ELSE {<<"strand", s, strand[s], piece[s]>> : s \in bad}) \cup
       (LET bad == {s \in 1..Len(S) : nxt[s] # StrandDue(S[s], t.y)}
        IN IF bad = {} THEN {} ELSE {<<"strand state", bad>>}) \cup
       (IF Only(below, ToSet(below) \ have) = Only(t.b, ToSet(t.b) \ have) /\ Passed(below, t.b, have) = {} THEN {}
        ELSE {<<"order changes without an event", below, t.b, have>>}) \cup
       UNION {IF Ascending(ux(j)) THEN {} ELSE {<<"positions contradict the order above", ux(j)>>} : j \in 1..Len(t.r)} \cup
       UNION {IF Ascending(dx(j)) THEN {} ELSE {<<"positions contradict the order below", dx(j)>>} : j \in 1..Len(t.r)} \cup
       (LET far == {e \in ToSet(ev) : e[7] > Near} IN IF far = {} THEN {} ELSE {<<"far from the segment", far>>}) \cup
       UNION {RangeWhy(below, t.b, t.r[j]) : j \in 1..Len(t.r)} \cup
       (IF \A j \in 1..Len(t.g) : t.g[j] <= Near THEN {} ELSE {<<"ranges overlap, hundredths of the accuracy", t.g>>})

Line ==
    /\ k < Len(Lines)
    /\ LET t == Lines[k + 1]
           ev == Cat([j \in 1..Len(t.r) |-> t.r[j].e])
           have == {ev[i][2] : i \in 1..Len(ev)}
           nxt == [s \in 1..Len(Segs) |-> IF s \in have THEN After(SelectSeq(ev, LAMBDA e : e[2] = s)) ELSE strand[s]]
       IN /\ Say(IF Prop = "P11" THEN ListWhy(t, IF k = 0 THEN 0 ELSE Lines[k].y) ELSE LineWhy(t, ev, have, nxt))
          /\ strand' = nxt /\ below' = t.b
          /\ judged' = judged + (IF Prop = "P11" THEN Len(t.b) ELSE Len(ev))
    /\ k' = k + 1 /\ UNCHANGED c
End ==
    /\ k = Len(Lines)
    /\ Say(IF Trace[c].st # "ok" THEN {<<Trace[c].st>>}
           ELSE (IF Prop = "P12" /\ \E s \in 1..Len(Segs) : strand[s] # 2 THEN {<<"strands not ended", {s \in 1..Len(Segs) : strand[s] # 2}>>} ELSE {})
                \cup (IF Prop = "P11" /\ below # <<>> THEN {<<"not empty at the end">>} ELSE {}))
    /\ k' = k + 1 /\ UNCHANGED <<c, below, strand, judged>>
Done == k = Len(Lines) + 1 /\ k' = k + 1 /\ Finished(c, judged) /\ UNCHANGED <<c, below, strand, judged>>
Next == Line \/ End \/ Done
Spec == Init /\ [][Next]_vars
TypeOK == k \in Nat
=============================================================================
