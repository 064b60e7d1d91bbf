------------------------------- MODULE BoolOp -------------------------------
(***************************************************************************)
(* What a boolean operation means, point by point.                         *)
(***************************************************************************)
EXTENDS Integers

EvenOdd == 0      NonZero == 1
Rules == {EvenOdd, NonZero}

Union == 0        Intersection == 1        Difference == 2        SymDiff == 3
Ops == {Union, Intersection, Difference, SymDiff}

(* Is a point with winding number w inside, under a fill rule?             *)
Inside(rule, w) == IF rule = EvenOdd THEN w % 2 = 1 ELSE w # 0

Keep(op, a, b) ==
    CASE op = Union        -> a \/ b
      [] op = Intersection -> a /\ b
      [] op = Difference   -> a /\ ~b
      [] op = SymDiff      -> a # b

(* The result contains a point with winding numbers wa, wb.                *)
InResult(rule, op, wa, wb) == Keep(op, Inside(rule, wa), Inside(rule, wb))
=============================================================================
