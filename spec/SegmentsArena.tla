---------------------------- MODULE SegmentsArena ---------------------------
(***************************************************************************)
(* The segment store as a machine: additions of polylines and curve paths. *)
(*                                                                         *)
(* Coordinates are ranks: integers ordered (and equal) exactly as the      *)
(* numbers they stand for.  An addition is [k, subs]: k is                 *)
(*   "poly"   closed polylines    "points" open polylines                  *)
(*   "bez"    path of closed subpaths, refused if one is open              *)
(*   "open"   path whose subpaths may be open                              *)
(* subs lists, for polylines, flat point lists; for paths, elements        *)
(* <<kind, x, y>> with kind 0 move, 1 line, 2/3 curve, 4 close.            *)
(*                                                                         *)
(* A store A is a sequence of segments                                     *)
(*   <<sx, sy, ex, ey, pos, next, prev, mono, on>>                         *)
(* s/e: start and end in the direction of travel, pos: is that upward in   *)
(* (y, x) order, next/prev: neighbours (0: none), mono: monotone in height,*)
(* on: numbers of the elements of the current addition it lies on.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

SP(g) == <<g[1], g[2]>>
EP(g) == <<g[3], g[4]>>
Before(p, q) == p[2] < q[2] \/ (p[2] = q[2] /\ p[1] <= q[1])

(* Subpaths of an addition: sequences of <<kind, from, to, element id>>,   *)
(* kind 1 line, 3 curve.                                                   *)
RECURSIVE PolyEdges(_, _, _)
PolyEdges(r, k, closed) ==
    LET n == Len(r) \div 2 IN
    IF n <= 1 \/ k > n \/ (k = n /\ ~closed) THEN <<>>
    ELSE LET j == IF k = n THEN 1 ELSE k + 1 IN
         <<<<1, <<r[2*k-1], r[2*k]>>, <<r[2*j-1], r[2*j]>>, 0>>>> \o PolyEdges(r, k + 1, closed)

RECURSIVE Expand(_, _, _, _, _, _)
(* els from i; acc: subpath being built; cur, start: pen and subpath start *)
Expand(els, i, acc, cur, start, done) ==
    IF i > Len(els) THEN Append(done, acc)
    ELSE LET e == els[i]  p == <<e[2], e[3]>> IN
         CASE e[1] = 0 -> Expand(els, i + 1, <<>>, p, p, Append(done, acc))
           [] e[1] = 4 -> Expand(els, i + 1, IF cur = start THEN acc ELSE Append(acc, <<1, cur, start, i>>), start, start, done)
           [] OTHER -> Expand(els, i + 1, Append(acc, <<IF e[1] = 1 THEN 1 ELSE 3, cur, p, i>>), p, start, done)

SubpathsOf(o) ==
    IF o.k \in {"poly", "points"}
    THEN [i \in 1..Len(o.subs) |-> PolyEdges(o.subs[i], 1, o.k = "poly")]
    ELSE SelectSeq(Expand(o.subs, 1, <<>>, <<0, 0>>, <<0, 0>>, <<>>), LAMBDA s : s # <<>>)

(* Segments i .. i+k-1 of A run from p to q on element id.                 *)
Runs(A, i, k, p, q, id) ==
    /\ i + k - 1 <= Len(A)
    /\ IF k = 0 THEN p = q
       ELSE /\ SP(A[i]) = p /\ EP(A[i + k - 1]) = q
            /\ \A j \in 1..k-1 : EP(A[i + j - 1]) = SP(A[i + j])
            /\ \A j \in 0..k-1 : \E m \in 1..Len(A[i + j][9]) : A[i + j][9][m] = id
(* Positions after the pieces of one piece of path, starting at i.         *)
MatchEl(A, i, el) ==
    IF el[1] = 1
    THEN (IF i <= Len(A) /\ SP(A[i]) = el[2] /\ EP(A[i]) = el[3] THEN {i + 1} ELSE {})
         \cup (IF el[2] = el[3] THEN {i} ELSE {})          \* no trace of a line of length zero
    ELSE {i + k : k \in {k \in 0..3 : Runs(A, i, k, el[2], el[3], el[4])}}
RECURSIVE MatchSub(_, _, _, _)
MatchSub(A, is, sub, k) ==
    IF k > Len(sub) THEN is ELSE MatchSub(A, UNION {MatchEl(A, i, sub[k]) : i \in is}, sub, k + 1)

(* Links of segments i..j-1 forming one contour.                           *)
LinksOK(A, i, j, closed) ==
    \A k \in i..j-1 :
        /\ A[k][6] = (IF k < j - 1 THEN k + 1 ELSE IF closed THEN i ELSE 0)
        /\ A[k][7] = (IF k > i THEN k - 1 ELSE IF closed THEN j - 1 ELSE 0)

SubStart(s) == s[1][2]
SubEnd(s) == s[Len(s)][3]

(* All ways to read the store from i on as the subpaths k, k+1, ..         *)
RECURSIVE Fits(_, _, _, _, _)
Fits(A, i, subs, k, kind) ==
    IF k > Len(subs) THEN i = Len(A) + 1
    ELSE IF subs[k] = <<>> THEN Fits(A, i, subs, k + 1, kind)
    ELSE LET s == subs[k]
             closed == kind = "poly" \/ (kind # "points" /\ SubStart(s) = SubEnd(s)) IN
         \E j \in MatchSub(A, {i}, s, 1) : LinksOK(A, i, j, closed) /\ Fits(A, j, subs, k + 1, kind)

(* The first open subpath, if it must not be there.                        *)
OpenSubs(o) == IF o.k # "bez" THEN {} ELSE
    LET subs == SubpathsOf(o) IN {k \in 1..Len(subs) : SubStart(subs[k]) # SubEnd(subs[k])}

SegOK(g) == /\ (g[5] = 1) => Before(SP(g), EP(g))
            /\ (g[5] = 0) => Before(EP(g), SP(g))
            /\ g[8] = 1
LowY(g) == IF g[2] < g[4] THEN g[2] ELSE g[4]
HighY(g) == IF g[2] < g[4] THEN g[4] ELSE g[2]
Horizontal(g) == g[2] = g[4]

(* in, out: flat lists y1, seg1, y2, seg2, ..                              *)
ListOK(A, l, want, height(_)) ==
    LET n == Len(l) \div 2 IN
    /\ n = Cardinality(want)
    /\ {l[2*i] : i \in 1..n} = want
    /\ \A i \in 1..n : l[2*i - 1] = height(A[l[2*i]])
    /\ \A i \in 1..n-1 : l[2*i - 1] <= l[2*i + 1]
EnterOK(A, in) == ListOK(A, in, 1..Len(A), LowY)
ExitOK(A, out) == ListOK(A, out, {i \in 1..Len(A) : ~Horizontal(A[i])}, HighY)
=============================================================================
