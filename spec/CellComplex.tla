---------------------------- MODULE CellComplex -----------------------------
(***************************************************************************)
(* Regions that are unions of cells of a small planar complex: a world in  *)
(* which results of boolean operations can be enumerated completely.       *)
(*                                                                         *)
(* Points are integer pairs, y grows downwards.  Two complexes:            *)
(*   "square": unit squares (in steps of 2), four edges at a point         *)
(*   "jack":   every square cut by both diagonals, eight edges at a point  *)
(* A cell is the sequence of its corners, counter-clockwise on the screen, *)
(* i.e. with the cell on the left of each edge <<p, q>>.                   *)
(***************************************************************************)
EXTENDS Geometry

Square(i, j) == <<<<2*i, 2*j>>, <<2*i, 2*j + 2>>, <<2*i + 2, 2*j + 2>>, <<2*i + 2, 2*j>>>>
Squares(w, h) == {Square(i, j) : i \in 0..w-1, j \in 0..h-1}

Jack(i, j, s) ==
    LET c == <<2*i + 1, 2*j + 1>>
        a == <<2*i, 2*j>>  b == <<2*i, 2*j + 2>>  d == <<2*i + 2, 2*j + 2>>  e == <<2*i + 2, 2*j>>
    IN CASE s = 0 -> <<a, b, c>> [] s = 1 -> <<b, d, c>> [] s = 2 -> <<d, e, c>> [] OTHER -> <<e, a, c>>
Jacks(w, h) == {Jack(i, j, s) : i \in 0..w-1, j \in 0..h-1, s \in 0..3}

CellsOf(kind, w, h) == IF kind = "square" THEN Squares(w, h) ELSE Jacks(w, h)

(* Edges of a polygon given by its corners.                                *)
EdgesOf(w) == {<<w[i], w[IF i = Len(w) THEN 1 ELSE i + 1]>> : i \in 1..Len(w)}
Rev(e) == <<e[2], e[1]>>

(* The directed boundary of a region: the region lies on the left.         *)
BoundaryEdges(R) ==
    LET all == UNION {EdgesOf(c) : c \in R}
    IN {e \in all : Rev(e) \notin all}

(* A point inside a cell, in units of 1/12 (cells are triangles, squares). *)
RECURSIVE SumOf(_, _, _)
SumOf(c, i, k) == IF i > Len(c) THEN 0 ELSE c[i][k] + SumOf(c, i + 1, k)
Centre(c) == <<SumOf(c, 1, 1) * (12 \div Len(c)), SumOf(c, 1, 2) * (12 \div Len(c))>>

(* A walk (sequence of edges) as a ring for module Geometry, same units.   *)
RECURSIVE RingFrom(_, _)
RingFrom(w, i) == IF i > Len(w) THEN <<>> ELSE <<12 * w[i][1][1], 12 * w[i][1][2]>> \o RingFrom(w, i + 1)
Ring(w) == RingFrom(w, 1)

ClosedWalk(w) == /\ Len(w) > 0
                 /\ \A i \in 1..Len(w) : w[i][2] = w[IF i = Len(w) THEN 1 ELSE i + 1][1]
SimpleWalk(w) == Cardinality({w[i][1] : i \in 1..Len(w)}) = Len(w)
AreaSign(w) == LET a == Area2(Ring(w)) IN IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0

(* The eight compass directions, counter-clockwise on the screen.          *)
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Dir(p, q) ==
    LET dx == Sgn(q[1] - p[1])  dy == Sgn(q[2] - p[2])
    IN CASE dx = 1 /\ dy = 0 -> 0 [] dx = 1 /\ dy = -1 -> 1 [] dx = 0 /\ dy = -1 -> 2
         [] dx = -1 /\ dy = -1 -> 3 [] dx = -1 /\ dy = 0 -> 4 [] dx = -1 /\ dy = 1 -> 5
         [] dx = 0 /\ dy = 1 -> 6 [] OTHER -> 7
=============================================================================
