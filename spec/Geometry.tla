------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* Exact plane geometry over integers, the oracle's notion of "inside".    *)
(* A ring is a flat sequence <<x1, y1, x2, y2, ..>> of vertices, closed    *)
(* implicitly; a shape is a sequence of rings.  y grows downwards.         *)
(* All coordinates stay below 2^15, so that every product fits TLC's       *)
(* 32-bit integers.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Abs(x)    == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a

NV(r)    == Len(r) \div 2
X(r, k)  == r[2*k - 1]
Y(r, k)  == r[2*k]
Nx(r, k) == IF 2*k = Len(r) THEN 1 ELSE k + 1

(* Twice the signed area of the triangle (a, b, p).                        *)
Cross(ax, ay, bx, by, px, py) == (bx - ax) * (py - ay) - (by - ay) * (px - ax)

Right(r, k, px, py) == Cross(X(r,k), Y(r,k), X(r,Nx(r,k)), Y(r,Nx(r,k)), px, py)

(* Winding number of one ring around a point that is not on it.            *)
RingWinding(r, px, py) ==
    Cardinality({k \in 1..NV(r) : /\ Y(r,k) <= py /\ Y(r,Nx(r,k)) > py
                                  /\ Right(r, k, px, py) > 0})
  - Cardinality({k \in 1..NV(r) : /\ Y(r,k) > py /\ Y(r,Nx(r,k)) <= py
                                  /\ Right(r, k, px, py) < 0})

RECURSIVE SumRings(_, _, _, _)
SumRings(rs, i, px, py) ==
    IF i > Len(rs) THEN 0 ELSE RingWinding(rs[i], px, py) + SumRings(rs, i + 1, px, py)
Winding(rs, px, py) == SumRings(rs, 1, px, py)

(* A conservative "p is within m of edge k": it may hold for points that   *)
(* are a little farther away, never the other way round.                   *)
NearEdge(r, k, px, py, m) ==
    LET j == Nx(r, k) IN
    /\ px >= Min2(X(r,k), X(r,j)) - m /\ px <= Max2(X(r,k), X(r,j)) + m
    /\ py >= Min2(Y(r,k), Y(r,j)) - m /\ py <= Max2(Y(r,k), Y(r,j)) + m
    /\ Abs(Right(r, k, px, py)) <= m * (Abs(X(r,j) - X(r,k)) + Abs(Y(r,j) - Y(r,k)))

Near(rs, px, py, m) ==
    \E i \in 1..Len(rs) : \E k \in 1..NV(rs[i]) : NearEdge(rs[i], k, px, py, m)

(* Twice the signed area; positive = clockwise as seen with y downwards.   *)
RECURSIVE Area2From(_, _)
Area2From(r, k) ==
    IF k > NV(r) THEN 0
    ELSE X(r,k) * Y(r,Nx(r,k)) - X(r,Nx(r,k)) * Y(r,k) + Area2From(r, k + 1)
Area2(r) == Area2From(r, 1)
=============================================================================
