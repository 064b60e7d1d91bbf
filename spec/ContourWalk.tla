---------------------------- MODULE ContourWalk -----------------------------
(***************************************************************************)
(* How contours are extracted from an arrangement (Topology::contours):    *)
(* walk along boundary edges with the region on the left, turning as       *)
(* tightly as possible around it; when a point repeats, split off the loop *)
(* that closes there; find the parent of a new contour by looking west.    *)
(*                                                                         *)
(* Checked exhaustively over all unions of cells of a small complex, for a *)
(* sweep in direction (A, B): the finished contours satisfy P02 and P03    *)
(* at every cell.                                                          *)
(***************************************************************************)
EXTENDS CellComplex, Contours, TLC, Randomization

CONSTANTS Kind, W, H,  \* the complex
          A, B,        \* height of a point: A x + B y
          SplitStart,  \* TRUE: a loop closed at the starting point of an outer walk is the outer contour
          NReg         \* 0: all regions; otherwise this many random ones

Cells == CellsOf(Kind, W, H)

VARIABLES R,        \* the region
          done,     \* finished contours: [walk, parent, outer]; a reserved slot has walk <<>>
          slot,     \* number of the slot reserved by the walk in progress, 0: none
          segs,     \* the walk in progress
          start,    \* its first edge
          found     \* has the outer contour of this walk been split off already?
vars == <<R, done, slot, segs, start, found>>

Bdy == BoundaryEdges(R)
RangeOf(s) == {s[i] : i \in 1..Len(s)}
Visited == UNION {RangeOf(done[k].walk) : k \in 1..Len(done)} \cup RangeOf(segs)

Init == /\ R \in IF NReg = 0 THEN SUBSET Cells ELSE RandomSubset(NReg, SUBSET Cells)
        /\ done = <<>> /\ slot = 0 /\ segs = <<>> /\ start = <<>> /\ found = FALSE

(*------------------------- the sweep's view ------------------------------*)
Hgt(p) == A * p[1] + B * p[2]
Pos(p) == B * p[1] - A * p[2]
Horizontal(e) == Hgt(e[1]) = Hgt(e[2])
Downward(e)   == Hgt(e[1]) < Hgt(e[2])
Top(e) == IF Downward(e) THEN e[1] ELSE e[2]
Bot(e) == IF Downward(e) THEN e[2] ELSE e[1]

(* f is left of g half a unit below height h, where both exist.            *)
Den(f)    == 2 * (Hgt(Bot(f)) - Hgt(Top(f)))
Num(f, h) == 2 * (Hgt(Bot(f)) - Hgt(Top(f))) * Pos(Top(f))
             + (2*h + 1 - 2*Hgt(Top(f))) * (Pos(Bot(f)) - Pos(Top(f)))
LeftOf(f, g, h) == Num(f, h) * Den(g) < Num(g, h) * Den(f)
Spans(f, h) == Hgt(Top(f)) <= h /\ h < Hgt(Bot(f))

(* First unvisited edge in sweep order: highest, then leftmost.            *)
Unvisited == {e \in Bdy : ~Horizontal(e) /\ e \notin Visited}
Before(e, f) ==
    \/ Hgt(Top(e)) < Hgt(Top(f))
    \/ /\ Hgt(Top(e)) = Hgt(Top(f))
       /\ \/ Pos(Top(e)) < Pos(Top(f))
          \/ Top(e) = Top(f) /\ LeftOf(e, f, Hgt(Top(e)))
First == CHOOSE e \in Unvisited : \A f \in Unvisited : f = e \/ Before(e, f)

(* The nearest boundary edge to the west of e, just below e's top.         *)
WestEdges(e) == LET h == Hgt(Top(e)) IN
                {f \in Bdy : ~Horizontal(f) /\ Spans(f, h) /\ LeftOf(f, e, h)}
West(e) == CHOOSE f \in WestEdges(e) : \A g \in WestEdges(e) : f = g \/ LeftOf(g, f, Hgt(Top(e)))
ContourOf(f) == CHOOSE k \in 1..Len(done) : f \in RangeOf(done[k].walk)

(*------------------------------ the walk ---------------------------------*)
StartWalk ==
    /\ slot = 0 /\ Unvisited # {}
    /\ LET e == First
           west == WestEdges(e) IN
       /\ start' = e /\ segs' = <<e>> /\ found' = FALSE
       /\ slot' = Len(done) + 1
       /\ done' = Append(done,
            IF west = {} THEN [walk |-> <<>>, parent |-> 0, outer |-> TRUE]
            ELSE LET f == West(e)
                     k == ContourOf(f)
                     outside == ~Downward(f)     \* the region is west of f: outside is between
                 IN IF outside = done[k].outer
                    THEN [walk |-> <<>>, parent |-> done[k].parent, outer |-> outside]
                    ELSE [walk |-> <<>>, parent |-> k, outer |-> ~done[k].outer])
    /\ UNCHANGED R

(* The next boundary edge: clockwise from where we came, so as tightly as  *)
(* possible around the region on the left.                                 *)
NextEdge(e) ==
    LET outs == {f \in Bdy : f[1] = e[2]}
        back == Dir(e[2], e[1])
        turn(f) == (back - Dir(f[1], f[2]) + 8) % 8      \* clockwise angle from back
    IN CHOOSE f \in outs : \A g \in outs : turn(f) <= turn(g)

LoopParent == IF done[slot].outer THEN slot ELSE done[slot].parent

Step ==
    /\ slot # 0
    /\ LET nx == NextEdge(segs[Len(segs)])
           seen == {i \in 1..Len(segs) : segs[i][1] = nx[1]} IN
       /\ nx # start
       /\ IF seen = {}
          THEN segs' = Append(segs, nx) /\ UNCHANGED <<done, found>>
          ELSE LET i == CHOOSE i \in seen : TRUE
                   loop == SubSeq(segs, i, Len(segs)) IN
               /\ segs' = Append(SubSeq(segs, 1, i - 1), nx)
               /\ IF SplitStart /\ done[slot].outer /\ ~found /\ i = 1
                  THEN /\ done' = [done EXCEPT ![slot].walk = loop]
                       /\ found' = TRUE
                  ELSE /\ done' = Append(done, [walk |-> loop, parent |-> LoopParent, outer |-> FALSE])
                       /\ UNCHANGED found
    /\ UNCHANGED <<R, slot, start>>

Close ==
    /\ slot # 0
    /\ NextEdge(segs[Len(segs)]) = start
    /\ done' = IF found THEN Append(done, [walk |-> segs, parent |-> LoopParent, outer |-> FALSE])
               ELSE [done EXCEPT ![slot].walk = segs]
    /\ slot' = 0 /\ segs' = <<>> /\ start' = <<>> /\ found' = FALSE
    /\ UNCHANGED R

Next == StartWalk \/ Step \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Finished == slot = 0 /\ Unvisited = {}

(*------------------------------- properties ------------------------------*)
TypeOK == slot \in 0..Len(done) /\ found \in BOOLEAN /\ RangeOf(segs) \subseteq Bdy

(* Every boundary edge ends up in exactly one contour.                     *)
EdgesOnce == Finished =>
    /\ UNION {RangeOf(done[k].walk) : k \in 1..Len(done)} = Bdy
    /\ \A k \in 1..Len(done) : Cardinality(RangeOf(done[k].walk)) = Len(done[k].walk)
    /\ \A k, m \in 1..Len(done) : k # m => RangeOf(done[k].walk) \cap RangeOf(done[m].walk) = {}

K == [k \in 1..Len(done) |-> <<done[k].parent, IF done[k].outer THEN 1 ELSE 0, 1, 1, AreaSign(done[k].walk)>>]
Rings == [k \in 1..Len(done) |-> Ring(done[k].walk)]
RECURSIVE FlatW(_, _, _)
FlatW(rs, p, k) == IF k > Len(rs) THEN <<>>
                   ELSE LET w == RingWinding(rs[k], p[1], p[2])
                        IN (IF w = 0 THEN <<>> ELSE <<k, w>>) \o FlatW(rs, p, k + 1)

P02 == Finished =>
    /\ \A k \in 1..Len(done) : ClosedWalk(done[k].walk) /\ SimpleWalk(done[k].walk)
    /\ ContourShapeOK(K)
    /\ LET rs == Rings IN \A c \in Cells : Total(FlatW(rs, Centre(c), 1)) = IF c \in R THEN -1 ELSE 0

P03 == Finished =>
    /\ IsForest(K) /\ Alternates(K)
    /\ LET rs == Rings IN \A c \in Cells : IsChain(K, FlatW(rs, Centre(c), 1))

Terminates == <>[]Finished
=============================================================================
