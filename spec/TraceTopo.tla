----------------------------- MODULE TraceTopo ------------------------------
(***************************************************************************)
(* Conformance of recorded arrangements (PlanarMap).                       *)
(*                                                                         *)
(* Record: M, T: modulus of the data and contribution of each input;       *)
(* exact = 1: A[j] are the rings of input j, S the samples <<x, y>> and m  *)
(* the margin, all in the same integer units; otherwise S[i] are the       *)
(* winding numbers of the inputs at sample i (measured).                   *)
(* E: segments of the arrangement as in PlanarMap, then the numbers of a   *)
(* sample on the left of the way from p to q and of one on the right (0:   *)
(* none).  C: <<sl, sr, dist, d>>: samples at distance d (tenths of the    *)
(* accuracy) on both sides of a place on an input, at distance dist from   *)
(* the arrangement.  box: how far anything sticks out of the box.          *)
(* runs: q: predicate; W, K, G: contours of its region as in Contours.     *)
(* eq: agreement of the specialised interfaces.                            *)
(* P: per segment, does its drawn curve start and end at its vertices, how *)
(* far does it go back up, how far is it from its input.                   *)
(* X: <<i, j, nl, ne, nr, worst, sl, sr, sworst>> per pair of drawn        *)
(* curves: at how many heights i is left of j, too close to tell, right of *)
(* j, and the smaller of the two largest gaps (in 1e-6 of the accuracy);   *)
(* then the same without any tolerance but rounding, where both curves are *)
(* approximated together.                                                  *)
(***************************************************************************)
EXTENDS PlanarMap, Geometry, Contours, Report, Json, IOUtils

CONSTANTS Prop, MaxDev, Flip

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLES c, pc, data, judged
vars == <<c, pc, data, judged>>

Init == c \in 1..N /\ pc = "measure" /\ data = <<>> /\ judged = 0

(* What each sample says: the data there, <<>> if it is too close.         *)
Sample(t, s) ==
    IF t.exact = 1
    THEN IF \E j \in 1..Len(t.A) : Near(t.A[j], s[1], s[2], t.m) THEN <<>>
         ELSE DataAt(t.M, t.T, [j \in 1..Len(t.A) |-> Winding(t.A[j], s[1], s[2])])
    ELSE DataAt(t.M, t.T, s)

Measure ==
    /\ pc = "measure" /\ Trace[c].st = "ok"
    /\ data' = [i \in 1..Len(Trace[c].S) |-> Sample(Trace[c], Trace[c].S[i])]
    /\ pc' = "judge" /\ UNCHANGED <<c, judged>>

Known(i) == i > 0 /\ data[i] # <<>>

(*----------------------- the arrangement as a map ------------------------*)
(* (Inputs that contribute nothing may leave segments that separate nothing.) *)
Silent(t) == \E j \in 1..Len(t.T) : \A k \in 1..3 : Red(t.M, t.T[j][k]) = 0
BadEdges(t)  == {e \in 1..Len(t.E) : ~Mirrors(t.E[e]) \/ (~Silent(t) /\ ~Separates(t.E[e]))}
BadVertices(t) == {v \in 1..t.V : ~RotationPossible(t.E, v)}
BadSides(t)  == {e \in 1..Len(t.E) :
    \/ Known(t.E[e][7]) /\ data[t.E[e][7]] # t.E[e][4]
    \/ Known(t.E[e][8]) /\ data[t.E[e][8]] # t.E[e][3]}
Uncovered(t) == {k \in 1..Len(t.C) : LET x == t.C[k] IN
    /\ Known(x[1]) /\ Known(x[2]) /\ data[x[1]] # data[x[2]]
    /\ x[3] > x[4] + MaxDev}

WhyMap(t) ==
    (IF BadEdges(t) = {} THEN {} ELSE {<<"sides of segments", {<<e, t.E[e]>> : e \in BadEdges(t)}>>}) \cup
    (IF BadVertices(t) = {} THEN {} ELSE {<<"no rotation at vertices", BadVertices(t)>>}) \cup
    (IF BadSides(t) = {} THEN {} ELSE {<<"data beside segments", {<<e, t.E[e]>> : e \in BadSides(t)}>>}) \cup
    (IF Uncovered(t) = {} THEN {} ELSE {<<"input not represented", {t.C[k] : k \in Uncovered(t)}>>}) \cup
    (IF t.box <= MaxDev THEN {} ELSE {<<"outside the bounding box by", t.box>>})

(*------------------------------ predicates -------------------------------*)
WrongPoints(r) == {i \in 1..Len(r.W) : Known(i) /\
    (InsideByContours(r.W[i]) # Holds(r.q, data[i]) \/ ~WindsOnce(r.W[i]))}
WhyPredicates(t) ==
    (IF BadSides(t) = {} THEN {} ELSE {<<"data beside segments", {<<e, t.E[e]>> : e \in BadSides(t)}>>}) \cup
    UNION {IF WrongPoints(t.runs[k]) = {} THEN {} ELSE {<<"wrong points", t.runs[k].q, WrongPoints(t.runs[k])>>} : k \in 1..Len(t.runs)} \cup
    UNION {IF StructureOK(t.runs[k].K, t.runs[k].G) /\ ContourShapeOK(t.runs[k].K) THEN {} ELSE {<<"contours", t.runs[k].q>>} : k \in 1..Len(t.runs)} \cup
    (IF \A k \in 1..Len(t.eq) : t.eq[k] = 1 THEN {} ELSE {<<"interfaces disagree", t.eq>>})

(*----------------------------- drawn curves ------------------------------*)
WhyCurves(t) ==
    LET bad == {k \in 1..Len(t.P) : t.P[k][1] # 1 \/ t.P[k][2] # 1 \/ t.P[k][3] > 0 \/ t.P[k][4] > MaxDev}
        flips == {k \in 1..Len(t.X) : t.X[k][3] > 0 /\ t.X[k][5] > 0 /\ t.X[k][6] > Flip}
        weave == {k \in 1..Len(t.X) : t.X[k][7] > 0 /\ t.X[k][8] > 0}
    IN (IF bad = {} THEN {} ELSE {<<"drawn curves", {<<k, t.P[k]>> : k \in bad}>>}) \cup
       (IF flips = {} THEN {} ELSE {<<"drawn curves cross", {t.X[k] : k \in flips}>>}) \cup
       (IF weave = {} THEN {} ELSE {<<"curves drawn side by side cross", {t.X[k] : k \in weave}>>})

Why(t) == CASE Prop = "P13" -> WhyMap(t) [] Prop = "P14" -> WhyPredicates(t) [] Prop = "P15" -> WhyCurves(t)
Weight(t) == CASE Prop = "P13" -> 2 * Len(t.E) + t.V + Len(t.C) + 1
               [] Prop = "P14" -> Len(t.E) + Len(t.runs) * Len(data) + Len(t.eq)
               [] Prop = "P15" -> Len(t.P) + Len(t.X)

Judge ==
    /\ pc = "judge"
    /\ LET t == Trace[c]  why == Why(t) IN
       /\ IF why = {} THEN TRUE ELSE Reject(c, t.key, <<Prop>>, why)
       /\ judged' = judged + Weight(t)
    /\ pc' = "finish" /\ UNCHANGED <<c, data>>

(* No arrangement came back.                                               *)
Dead ==
    /\ pc = "measure" /\ Trace[c].st # "ok"
    /\ Reject(c, Trace[c].key, <<"process">>, {<<Trace[c].st>>})
    /\ pc' = "finish" /\ UNCHANGED <<c, data, judged>>

Done == pc = "finish" /\ Finished(c, judged) /\ pc' = "done" /\ UNCHANGED <<c, data, judged>>

Next == Measure \/ Judge \/ Dead \/ Done
Spec == Init /\ [][Next]_vars
TypeOK == pc \in {"measure", "judge", "finish", "done"} /\ judged \in Nat
=============================================================================
