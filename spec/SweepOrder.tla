------------------------------ MODULE SweepOrder -----------------------------
(***************************************************************************)
(* The design of the sweep: how the list of segments is kept in order      *)
(* although positions are only compared up to a tolerance.                 *)
(*                                                                         *)
(* A segment is <<a, x>>: it lives in the cells a, a+1, .. of a strip that *)
(* is cut into cells by the heights 0, 2, 4, .., and lies at x[k] in its   *)
(* k-th cell.  Two segments are compared cell by cell: left, right or      *)
(* (within T) neither; a comparison is a list of runs <<from, to, order>>. *)
(* All segments of this shape, NSeg at a time, are initial states.         *)
(*                                                                         *)
(* One step handles one event of the current height: a segment enters, a   *)
(* segment ends, or two segments are exchanged.  Exchanges are announced   *)
(* by scanning left and right from every segment that got new neighbours.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Randomization
CONSTANTS NSeg, Cells, XMax, DX, Mono, T, CT, OT,   \* CT: tolerance of the careful comparison
          Pick,                           \* 0: all; n: n initial states at random; 1: those shown below
          Rules                           \* {"push", "wait", "undo", "vacate", "touch"}, or fewer to see why each is there
VARIABLES seg, line, y, ev, todo, phase, n, bad
vars == <<seg, line, y, ev, todo, phase, n, bad>>
S == 1..NSeg

---------------------------------------------------------------------------
(* Segments and comparisons                                                *)
Smooth(x) == /\ \A k \in 1..Len(x)-1 : x[k+1] - x[k] \in -DX..DX
             /\ Mono => \/ \A k \in 1..Len(x)-1 : x[k+1] >= x[k]
                        \/ \A k \in 1..Len(x)-1 : x[k+1] <= x[k]
Segs == UNION {{<<a, x>> : x \in {f \in [1..len -> 0..XMax] : Smooth(f)}} : <<a, len>> \in {p \in (0..Cells-1) \X (1..Cells) : p[1] + p[2] <= Cells}}
From(i) == 2 * seg[i][1]
To(i) == 2 * (seg[i][1] + Len(seg[i][2]))
X(i, c) == seg[i][2][c - seg[i][1] + 1]
First(i) == seg[i][2][1]
LastX(i) == seg[i][2][Len(seg[i][2])]
MinX(i) == Min(ToSet(seg[i][2]))
MaxX(i) == Max(ToSet(seg[i][2]))
(* position at height h, taking the cell above a boundary (below at the start) *)
At(i, h) == IF h = From(i) THEN First(i) ELSE X(i, (h - 1) \div 2)

Ord(a, b, t) == IF a + t < b THEN "L" ELSE IF b + t < a THEN "R" ELSE "I"
Less(a, b) == IF a < b THEN a ELSE b
More(a, b) == IF a < b THEN b ELSE a
AddRun(r, c, o) ==
    IF r = <<>> THEN <<<<2*c, 2*c+2, o>>>>
    ELSE LET l == r[Len(r)] IN
         IF l[3] = o THEN [r EXCEPT ![Len(r)] = <<l[1], 2*c+2, o>>]
         ELSE IF l[3] # "I" /\ o # "I" THEN r \o <<<<2*c, 2*c, "I">>, <<2*c, 2*c+2, o>>>>
         ELSE Append(r, <<2*c, 2*c+2, o>>)
Cmp(i, j, t) ==
    LET lo == More(From(i), From(j))  hi == Less(To(i), To(j)) IN
    IF lo = hi THEN <<<<lo, lo, IF From(i) = lo THEN Ord(First(i), LastX(j), t) ELSE Ord(LastX(i), First(j), t)>>>>
    ELSE FoldLeft(LAMBDA r, c : AddRun(r, c, Ord(X(i, c), X(j, c), t)), <<>>, [k \in 1..(hi - lo) \div 2 |-> lo \div 2 + k - 1])
After(r, h) == SelectSeq(r, LAMBDA e : e[2] > h)
OrderAt(i, j, h) == (SelectSeq(Cmp(i, j, T), LAMBDA e : e[2] >= h)[1])[3]
EntryOK(i, j, h) == After(Cmp(i, j, T), h) # <<>>
Entry(i, j, h) == After(Cmp(i, j, T), h)[1]
OrderAfter(i, j, h) ==
    LET r == Cmp(i, j, T) IN
    IF h = r[Len(r)][2] THEN r[Len(r)][3]
    ELSE LET d == SelectSeq(After(r, h), LAMBDA e : e[3] # "I") IN IF d = <<>> THEN "I" ELSE d[1][3]

(* When does i, on the left of j, next cross it or touch it?               *)
RECURSIVE Touches(_, _)
Touches(r, h) ==      \* r starts with a run in which neither is left
    IF Len(r) < 2 THEN <<>>
    ELSE IF r[2][3] = "R" THEN <<"cross", (r[1][1] + r[1][2]) \div 2>>
    ELSE IF h < r[1][1] THEN <<"touch", (r[1][1] + r[1][2]) \div 2>>
    ELSE Touches(SubSeq(r, 3, Len(r)), h)
NextTouch(i, j, h) ==
    LET r0 == After(Cmp(i, j, T), h)
        r == IF r0 # <<>> /\ r0[1][3] = "L" THEN Tail(r0) ELSE r0
    IN IF r = <<>> THEN <<>> ELSE IF r[1][3] = "R" THEN <<"cross", h>> ELSE Touches(r, h)
\* The announcement <<height, left, right>> for i left of j.
Announce(i, j, h) ==
    LET t == NextTouch(i, j, h) IN
    IF t = <<>> THEN {}
    ELSE IF t[1] = "cross" THEN {<<More(h, t[2]), i, j>>}
    ELSE IF t[2] > h /\ "touch" \in Rules THEN {<<t[2], j, i>>} ELSE {}

---------------------------------------------------------------------------
(* Scanning.  ln: the list, of <<segment, ends here>>.                     *)
Ends(i) == To(i) = y
SureLeft(i, j, h, bound) == LET r == After(Cmp(i, j, CT), h) IN r # <<>> /\ r[1][3] = "L" /\ r[1][2] >= bound
RECURSIVE ScanR(_, _, _, _)
ScanR(ln, p, j, acc) ==    \* acc: <<events, height bound>>
    IF j > Len(ln) THEN acc[1]
    ELSE LET i == ln[p][1]  o == ln[j][1] IN
         IF Ends(o) THEN ScanR(ln, p, j + 1, acc)
         ELSE IF MaxX(i) + 2 * T < MinX(o) THEN acc[1]
         ELSE LET e == Announce(i, o, y)
                  b1 == Less(acc[2], To(o))
                  b2 == IF e = {} THEN b1 ELSE Less(b1, (CHOOSE w \in e : TRUE)[1])
              IN IF SureLeft(i, o, y, b2) THEN acc[1] \cup e ELSE ScanR(ln, p, j + 1, <<acc[1] \cup e, b2>>)
RECURSIVE ScanL(_, _, _, _)
ScanL(ln, p, j, acc) ==
    IF j < 1 THEN acc[1]
    ELSE LET i == ln[p][1]  o == ln[j][1] IN
         IF Ends(o) THEN ScanL(ln, p, j - 1, acc)
         ELSE IF MinX(i) - 2 * T > MaxX(o) THEN acc[1]
         ELSE LET e == Announce(o, i, y)
                  b1 == Less(acc[2], To(o))
                  b2 == IF e = {} THEN b1 ELSE Less(b1, (CHOOSE w \in e : TRUE)[1])
              IN IF SureLeft(o, i, y, b2) THEN acc[1] \cup e ELSE ScanL(ln, p, j - 1, <<acc[1] \cup e, b2>>)
Right(ln, p, e) == IF Ends(ln[p][1]) THEN e ELSE ScanR(ln, p, p + 1, <<e, To(ln[p][1])>>)
Left(ln, p, e) == IF Ends(ln[p][1]) THEN e ELSE ScanL(ln, p, p - 1, <<e, To(ln[p][1])>>)
Both(ln, p, e) == Left(ln, p, Right(ln, p, e))
(* The place p has been vacated: look from the nearest one before it.      *)
Vacated(ln, p, e) ==
    LET c == {k \in 1..p-1 : k <= Len(ln) /\ ~Ends(ln[k][1])} IN IF c = {} \/ "vacate" \notin Rules THEN e ELSE Both(ln, Max(c), e)
(* Put w at place p.  ls: <<list, events>>                                 *)
Put(ls, p, w) == LET l == InsertAt(ls[1], p, w) IN <<l, Both(l, p, ls[2])>>
Drop(ls, p) == LET l == RemoveAt(ls[1], p) IN <<l, Vacated(l, p, ls[2])>>
Place(i) == CHOOSE k \in 1..Len(line) : line[k][1] = i
OnLine(i) == \E k \in 1..Len(line) : line[k][1] = i

---------------------------------------------------------------------------
(* Entering                                                                *)
EndsLeft(i, j) == LET h == Less(To(i), To(j)) IN At(i, h) + T < At(j, h)
(* Places a binary search for a falling predicate may return.              *)
Falls(P(_)) == {k \in 1..Len(line)+1 : (k = 1 \/ P(k-1)) /\ (k = Len(line)+1 \/ ~P(k))}
Slow(s, k0) ==
    LET f[k \in k0..Len(line)+1, idx \in 1..Len(line)+1] ==
        IF k > Len(line) THEN idx
        ELSE LET o == line[k][1]  a == OrderAt(o, s, y)  b == OrderAfter(o, s, y) IN
             IF a = "R" THEN IF To(o) > y THEN idx ELSE f[k+1, idx]
             ELSE IF a = "L" THEN f[k+1, k+1]
             ELSE IF b = "L" \/ (b = "I" /\ EndsLeft(o, s)) THEN f[k+1, k+1] ELSE f[k+1, idx]
    IN f[k0, k0]
Places(s) ==
    LET x == First(s)
        quick == Falls(LAMBDA k : x >= MaxX(line[k][1]) + T)
        slow == {Slow(s, k) : k \in Falls(LAMBDA k : OrderAt(line[k][1], s, y) = "L")}
    IN UNION {IF p > Len(line) THEN {p}
              ELSE IF p = Len(line) \/ (p < Len(line) /\ MinX(line[p+1][1]) - T >= x)
              THEN LET o == line[p][1]  a == OrderAfter(s, o, y)
                   IN {IF a = "R" \/ (a = "I" /\ EndsLeft(o, s)) THEN p + 1 ELSE p}
              ELSE slow : p \in quick}

---------------------------------------------------------------------------
(* Exchanging: l, at place p, goes behind r, at place q, and takes along   *)
(* what is right of l.  Waits if that is impossible or would be undone.    *)
Between(p, q) == {k \in p+1..q-1 : ~line[k][2]}
Wait(l, r, p, q) ==    \* heights of the new announcements, by place
    LET lr == After(Cmp(l, r, T), y)
        now == IF lr = <<>> THEN <<y, "R">> ELSE <<lr[1][2], lr[1][3]>>
        w(k) == LET j == line[k][1]  a == Entry(l, j, y)  b == Entry(j, r, y)
                    und == IF a[3] = "L" THEN OrderAfter(j, r, y) ELSE IF a[3] = "I" THEN OrderAfter(l, j, y) ELSE "I"
                IN IF "wait" \in Rules /\ a[3] = "L" /\ b[3] = "L" THEN Less(a[2], b[2])
                   ELSE IF "undo" \in Rules /\ now[2] = "I" /\ und = "L" THEN Less(a[2], now[1]) ELSE 0
        W == {k \in Between(p, q) : w(k) > 0}
    IN IF W = {} THEN {} ELSE {<<w(Min(W)), l, r>>}
Defined(l, r, p, q) == \A k \in Between(p, q) : EntryOK(l, line[k][1], y) /\ EntryOK(line[k][1], r, y)
Exchange(l, p, q, rest) ==
    LET M == {p} \cup {k \in Between(p, q) : "push" \in Rules /\ Entry(l, line[k][1], y)[3] = "L"}
        m == Reverse(SetToSortSeq(M, <))          \* last one first
        out == FoldLeft(LAMBDA ls, k : Drop(ls, k), <<line, rest>>, m)
        at == q + 1 - Len(m)
    IN FoldLeft(LAMBDA ls, k : Put(ls, at, line[k]), out, m)

---------------------------------------------------------------------------
(* Configurations that need a rule, by rule; without push and wait lines   *)
(* take more events, but no invariant is known to fail.  Hole: with all    *)
(* rules, two segments end up in the wrong order by more than T (at most   *)
(* 2T), as each is within T of the one between them.                       *)
Undo == <<<<0, <<1, 2, 3, 2, 1, 0>>>>, <<0, <<0, 0, 1, 2, 3>>>>, <<0, <<2, 1, 2, 2, 1, 2>>>>>>        \* fails Finite
Vacate == <<<<0, <<2, 4, 3, 3, 4>>>>, <<0, <<4, 2, 1, 3, 4>>>>, <<0, <<1, 2, 3, 5, 4>>>>, <<0, <<2, 2, 4, 2, 4>>>>>>   \* Ordered
Touch == <<<<0, <<2, 2, 2, 1, 0, 0>>>>, <<0, <<1, 2, 1, 2, 1>>>>, <<0, <<0, 1, 0, 1, 2, 3>>>>>>       \* Ordered with OT = 1
Hole == <<<<0, <<6, 4, 3, 3>>>>, <<0, <<4, 6, 5, 4>>>>, <<0, <<3, 3, 5>>>>, <<0, <<2, 3, 4, 2>>>>>>   \* Ordered with OT = 1
Shown == {Undo, Vacate, Touch, Hole}
Init == /\ seg \in (IF Pick = 0 THEN [S -> Segs] ELSE IF Pick = 1 THEN {c \in Shown : Len(c) = NSeg} ELSE RandomSubset(Pick, [S -> Segs]))
        /\ line = <<>> /\ y = -1 /\ ev = {} /\ todo = {} /\ phase = "next" /\ n = 0 /\ bad = "no"

Heights == {From(i) : i \in {k \in S : From(k) > y}} \cup {To(i) : i \in {k \in S : To(k) > y}} \cup {e[1] : e \in ev}
Next1 == /\ phase = "next" /\ Heights # {}
         /\ y' = Min(Heights)
         /\ line' = SelectSeq(line, LAMBDA e : ~e[2])
         /\ todo' = {i \in S : From(i) = y'}
         /\ phase' = "enter" /\ n' = 0
         /\ UNCHANGED <<seg, ev, bad>>
Before(i, j) == First(i) < First(j) \/ (First(i) = First(j) /\ i < j)
Enter == /\ phase = "enter"
         /\ IF todo = {} THEN /\ phase' = "end" /\ todo' = {i \in S : To(i) = y} /\ UNCHANGED <<line, ev>>
            ELSE LET i == CHOOSE k \in todo : \A o \in todo \ {k} : Before(k, o) IN
                 \E p \in Places(i) : LET ls == Put(<<line, ev>>, p, <<i, FALSE>>)
                                      IN line' = ls[1] /\ ev' = ls[2] /\ todo' = todo \ {i} /\ phase' = phase
         /\ UNCHANGED <<seg, y, n, bad>>
End == /\ phase = "end"
       /\ IF todo = {} THEN phase' = "cross" /\ UNCHANGED <<line, ev, todo>>
          ELSE LET i == Min(todo)  p == Place(i)  l == [line EXCEPT ![p] = <<i, TRUE>>]
               IN line' = l /\ ev' = Vacated(l, p, ev) /\ todo' = todo \ {i} /\ phase' = phase
       /\ UNCHANGED <<seg, y, n, bad>>
Now == {e \in ev : e[1] = y}
Cross == /\ phase = "cross"
         /\ IF Now = {} THEN phase' = "next" /\ UNCHANGED <<line, ev, n, bad>>
            ELSE LET e == CHOOSE e \in Now : \A o \in Now \ {e} : e[2] < o[2] \/ (e[2] = o[2] /\ e[3] < o[3])
                     l == e[2]  r == e[3]  rest == ev \ {e} IN
                 /\ phase' = phase /\ n' = n + 1
                 /\ IF ~OnLine(l) \/ ~OnLine(r) THEN bad' = "gone" /\ UNCHANGED <<line, ev>>
                    ELSE LET p == Place(l)  q == Place(r) IN
                         IF p > q THEN line' = line /\ ev' = Left(line, p, Right(line, q, rest)) /\ bad' = bad
                         ELSE IF ~Defined(l, r, p, q) THEN bad' = "undefined" /\ UNCHANGED <<line, ev>>
                         ELSE LET w == Wait(l, r, p, q) IN
                              IF w # {} THEN line' = line /\ ev' = rest \cup w /\ bad' = bad
                              ELSE LET ls == Exchange(l, p, q, rest) IN line' = ls[1] /\ ev' = ls[2] /\ bad' = bad
         /\ UNCHANGED <<seg, y, todo>>
Next == bad = "no" /\ (Next1 \/ Enter \/ End \/ Cross)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* The list only has segments of this height, each once.                   *)
ListOK == /\ \A k \in 1..Len(line) : From(line[k][1]) <= y /\ y <= To(line[k][1])
          /\ \A k, m \in 1..Len(line) : k # m => line[k][1] # line[m][1]
          /\ phase = "next" => {line[k][1] : k \in 1..Len(line)} = {i \in S : From(i) <= y /\ y <= To(i)}
(* Whenever a line is done, nothing in it is right of anything listed after *)
(* it by more than OT (both above and below the line).  OT = T would be too *)
(* much to ask: see Hole.                                                   *)
Ordered == phase = "next" =>
    \A k, m \in 1..Len(line) : k < m /\ To(line[k][1]) > y /\ To(line[m][1]) > y =>
        LET i == line[k][1]  j == line[m][1] IN ~(OrderAt(i, j, y) = "R" /\ Entry(i, j, y)[3] = "R" /\ At(i, y) > At(j, y) + OT /\ At(i, y + 1) > At(j, y + 1) + OT)
(* Nothing is announced for the past; events concern listed segments.      *)
EventsOK == \A e \in ev : e[1] >= y
Sound == bad = "no"
(* One line is finished after few events.                                  *)
Finite == n <= 4 * NSeg * NSeg
=============================================================================
