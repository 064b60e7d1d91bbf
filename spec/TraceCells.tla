----------------------------- MODULE TraceCells -----------------------------
(***************************************************************************)
(* Conformance of recorded operations on unions of cells (CellComplex).    *)
(* Everything is exact here: the result must contain exactly the right     *)
(* cells, wind exactly once around each of them, have the right forest at  *)
(* every cell, and consist of exactly the directed boundary edges of the   *)
(* resulting region, each once.                                            *)
(*                                                                         *)
(* Record: kind, w, h; A, B: rings of lattice points whose edges run along  *)
(* edges of the complex (single cells, bigger pieces, walks); strict: do   *)
(* coincident edges always have common end points?  runs: r, o, st, K, G   *)
(* as in Contours, C: the contours as rings of lattice points, lat: were   *)
(* all vertices lattice points?                                            *)
(*                                                                         *)
(* Where edges overlap only partially, one of them passes through the end  *)
(* point of the other only up to rounding, so that slivers of zero width   *)
(* may remain; then the boundary is judged as a chain: edges that occur in *)
(* both directions cancel.                                                 *)
(***************************************************************************)
EXTENDS CellComplex, BoolOp, Contours, Report, Json, IOUtils

CONSTANT Prop

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

Cell(t, k) == IF t.kind = "square" THEN Square(k % t.w, k \div t.w)
              ELSE Jack((k \div 4) % t.w, (k \div 4) \div t.w, k % 4)
NCells(t) == t.w * t.h * (IF t.kind = "square" THEN 1 ELSE 4)

VARIABLES c, n, judged
vars == <<c, n, judged>>
Init == c \in 1..N /\ n = 0 /\ judged = 0

(* The region the operation defines: a set of cell numbers.                *)
Scaled(ring) == [i \in 1..Len(ring) |-> 12 * ring[i]]
ScaledAll(rs) == [i \in 1..Len(rs) |-> Scaled(rs[i])]
Region(t, r) ==
    LET a == ScaledAll(t.A)  b == ScaledAll(t.B) IN
    {k \in 0..NCells(t)-1 : LET p == Centre(Cell(t, k)) IN
        InResult(r.r, r.o, Winding(a, p[1], p[2]), Winding(b, p[1], p[2]))}

RECURSIVE FlatW(_, _, _)
FlatW(rs, p, k) == IF k > Len(rs) THEN <<>>
                   ELSE LET w == RingWinding(rs[k], p[1], p[2])
                        IN (IF w = 0 THEN <<>> ELSE <<k, w>>) \o FlatW(rs, p, k + 1)

(* All unit edges of a ring of lattice points, in order.  Axis-parallel    *)
(* edges of both complexes have length 2, diagonal ones (1, 1).            *)
Steps(kind, p, q) ==
    LET dx == q[1] - p[1]  dy == q[2] - p[2]  u == IF dx # 0 /\ dy # 0 THEN 1 ELSE 2
        l == Max2(Abs(dx), Abs(dy))  k == l \div u IN
    IF (dx # 0 /\ dy # 0 /\ Abs(dx) # Abs(dy)) \/ l % u # 0
    THEN <<<<p, q>>>>                                  \* not an edge of the complex at all
    ELSE [i \in 1..k |-> <<<<p[1] + (i-1)*u*Sgn(dx), p[2] + (i-1)*u*Sgn(dy)>>,
                           <<p[1] + i*u*Sgn(dx), p[2] + i*u*Sgn(dy)>>>>]
RECURSIVE UnitEdges(_, _, _)
UnitEdges(kind, ring, k) ==
    IF k > NV(ring) THEN <<>>
    ELSE LET j == Nx(ring, k) IN
         (IF X(ring,k) = X(ring,j) /\ Y(ring,k) = Y(ring,j) THEN <<>>
          ELSE Steps(kind, <<X(ring,k), Y(ring,k)>>, <<X(ring,j), Y(ring,j)>>)) \o UnitEdges(kind, ring, k + 1)
RECURSIVE AllEdges(_, _, _)
AllEdges(kind, C, i) == IF i > Len(C) THEN <<>> ELSE UnitEdges(kind, C[i], 1) \o AllEdges(kind, C, i + 1)

Reasons(t, r) ==
    IF r.st # "ok" THEN (IF Prop \in {"P01", "P05"} THEN {<<r.st, r.msg>>} ELSE {})
    ELSE
    LET R  == Region(t, r)
        rs == [i \in 1..Len(r.C) |-> Scaled(r.C[i])]
        W(k) == FlatW(rs, Centre(Cell(t, k)), 1)
        ids == 0..NCells(t)-1
    IN CASE Prop = "P01" ->
              LET bad == {k \in ids : (Total(W(k)) # 0) # (k \in R)} IN
              IF bad = {} THEN {} ELSE {<<"wrong cells", bad>>}
         [] Prop = "P02" ->
              (IF ContourShapeOK(r.K) THEN {} ELSE {<<"contour not closed, not finite or badly oriented", r.K>>}) \cup
              (LET bad == {k \in ids : Total(W(k)) \notin {0, -1}} IN
               IF bad = {} THEN {} ELSE {<<"winding not 0 or -1 at cells", bad>>})
         [] Prop = "P03" ->
              (IF StructureOK(r.K, r.G) THEN {} ELSE {<<"not a forest / orientation / grouping", r.K, r.G>>}) \cup
              (IF ~IsForest(r.K) THEN {} ELSE
               LET bad == {k \in ids : ~IsChain(r.K, W(k))} IN
               IF bad = {} THEN {} ELSE {<<"enclosing contours are no chain at cells", bad>>})
         [] Prop = "P04" ->
              IF r.lat = 1 THEN {} ELSE {<<"a vertex is not near any vertex of the inputs">>}
         [] Prop = "P20" ->
              LET es == AllEdges(t.kind, r.C, 1)
                  bd == BoundaryEdges({Cell(t, k) : k \in R})
                  S == {es[i] : i \in 1..Len(es)} IN
              IF t.strict = 1
              THEN (IF S \subseteq bd THEN {} ELSE {<<"not boundary edges", S \ bd>>}) \cup
                   (IF bd \subseteq S THEN {} ELSE {<<"missing boundary edges", bd \ S>>}) \cup
                   (IF Cardinality(S) = Len(es) THEN {} ELSE
                     {<<"boundary edges repeated", {es[i] : i \in {i \in 1..Len(es) : \E j \in 1..Len(es) : j # i /\ es[j] = es[i]}}>>})
              ELSE LET Count(e) == Cardinality({i \in 1..Len(es) : es[i] = e})
                       One(e) == IF e \in bd THEN 1 ELSE 0
                       bad == {e \in S \cup bd : Count(e) - Count(Rev(e)) # One(e) - One(Rev(e))}
                   IN IF bad = {} THEN {} ELSE {<<"the boundary chain is wrong at", bad>>}
         [] OTHER -> {}

Judge ==
    /\ n < Len(Trace[c].runs)
    /\ LET t == Trace[c]  r == t.runs[n + 1]  why == Reasons(t, r) IN
       /\ IF why = {} THEN TRUE ELSE Reject(c, t.key, <<"rule", r.r, "op", r.o>>, why)
       /\ judged' = judged + (IF r.st = "ok" THEN NCells(t) ELSE 1)
    /\ n' = n + 1 /\ UNCHANGED c

Done ==
    /\ n = Len(Trace[c].runs)
    /\ IF Trace[c].st = "ok" \/ Prop \notin {"P01", "P05"} THEN TRUE ELSE Reject(c, Trace[c].key, <<"process">>, {<<Trace[c].st>>})
    /\ Finished(c, judged)
    /\ n' = 99 /\ UNCHANGED <<c, judged>>

Next == Judge \/ Done
Spec == Init /\ [][Next]_vars
TypeOK == n \in 0..99 /\ judged \in Nat
=============================================================================
