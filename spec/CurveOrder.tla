----------------------------- MODULE CurveOrder -----------------------------
(***************************************************************************)
(* The comparison of two height-monotone curves: a list of stretches       *)
(* <<from, to, label>> of heights, label -1 (first curve left), 0 (close), *)
(* 1 (right).  Heights are integers in the right order.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

L(k, l) == l[k][3]
(* A list divides lo..hi without gap or overlap; two stretches side by     *)
(* side differ and one of them is "close".                                 *)
Partition(l, lo, hi) ==
    /\ Len(l) > 0 /\ l[1][1] = lo /\ l[Len(l)][2] = hi
    /\ \A k \in 1..Len(l) : l[k][1] <= l[k][2] /\ l[k][3] \in {-1, 0, 1}
    /\ \A k \in 1..Len(l)-1 : /\ l[k][2] = l[k+1][1]
                              /\ l[k][3] # l[k+1][3] /\ 0 \in {l[k][3], l[k+1][3]}

Flip(l) == [k \in 1..Len(l) |-> <<l[k][1], l[k][2], -l[k][3]>>]
LabelsAt(l, y) == {l[k][3] : k \in {k \in 1..Len(l) : l[k][1] <= y /\ y <= l[k][2]}}

(* First stretch ending after y (0: none).                                 *)
RECURSIVE FirstAfter(_, _, _)
FirstAfter(l, y, k) == IF k > Len(l) THEN 0 ELSE IF l[k][2] > y THEN k ELSE FirstAfter(l, y, k + 1)

RECURSIVE Definite(_, _)
Definite(l, k) == IF k > Len(l) THEN 0 ELSE IF l[k][3] # 0 THEN l[k][3] ELSE Definite(l, k + 1)
OrderAfter(l, y) ==
    LET k == FirstAfter(l, y, 1) IN
    IF y = l[Len(l)][2] THEN l[Len(l)][3] ELSE IF k = 0 THEN 0 ELSE Definite(l, k)

(* The first stretch in which, coming from y with the first curve on the   *)
(* left, the curves meet: <<kind, stretch>>, kind 0: never, 1: they cross, *)
(* 2: they touch.  Stretch 0: at once.  A close stretch that reaches the   *)
(* end does not count; being close at y already does not count as touching.*)
RECURSIVE Meet(_, _, _)
Meet(l, y, k) ==
    IF k = 0 \/ k > Len(l) THEN <<0, 0>>
    ELSE IF l[k][3] = 1 THEN <<1, 0>>
    ELSE IF l[k][3] = -1 THEN Meet(l, y, k + 1)
    ELSE IF k = Len(l) THEN <<0, 0>>
    ELSE IF l[k + 1][3] = 1 THEN <<1, k>>
    ELSE IF y < l[k][1] THEN <<2, k>> ELSE Meet(l, y, k + 2)
NextMeet(l, y) == Meet(l, y, FirstAfter(l, y, 1))

(* w widens the close stretches of l: definite answers keep their label,   *)
(* close stretches stay close (one of no height at an end may vanish).     *)
Widened(l, w) ==
    /\ \A j \in 1..Len(w) : w[j][3] # 0 =>
          \E k \in 1..Len(l) : l[k][3] = w[j][3] /\ l[k][1] <= w[j][1] /\ w[j][2] <= l[k][2]
    /\ \A k \in 1..Len(l) : l[k][3] = 0 /\ (l[k][1] < l[k][2] \/ (1 < k /\ k < Len(l))) =>
          \E j \in 1..Len(w) : w[j][3] = 0 /\ w[j][1] <= l[k][1] /\ l[k][2] <= w[j][2]

(* How far: hl, hw are the heights in thousandths of the slop.             *)
WidenedBySlop(l, w, hl, hw) ==
    \A k \in 1..Len(l) : l[k][3] # 0 /\ l[1][1] < l[Len(l)][2] =>
        LET s == hl[k][1] + (IF l[k][1] = l[1][1] THEN 0 ELSE 1000)
            e == hl[k][2] - (IF l[k][2] = l[Len(l)][2] THEN 0 ELSE 1000)
            inside == {j \in 1..Len(w) : w[j][3] = l[k][3] /\ l[k][1] <= w[j][1] /\ w[j][2] <= l[k][2]}
        IN /\ s + 5 < e => \E j \in inside : hw[j][1] \in s-3..s+3 /\ hw[j][2] \in e-3..e+3
           /\ s > e + 5 => inside = {}
=============================================================================
