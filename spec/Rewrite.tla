------------------------------ MODULE Rewrite -------------------------------
(***************************************************************************)
(* Ways to write the same two inputs down differently, and what each does  *)
(* to the winding numbers of the operands at a point that travels with the *)
(* inputs.  A rewrite is <<kind, operand, exponent>>.                      *)
(***************************************************************************)
EXTENDS BoolOp, Sequences

ReverseAll == 1    \* every subpath of the operand backwards
ReverseSome == 2   \* some subpaths backwards
Rotate == 3        \* subpaths start at another vertex
Permute == 4       \* subpaths in another order
Insert == 5        \* points inserted on lines
Split == 6         \* curves (and lines) cut into pieces
Raise == 7         \* lines as quadratics or cubics, quadratics as cubics
Closing == 8       \* closed explicitly or by a closing element
Zero == 9          \* zero-length pieces and empty subpaths added
Cancel == 10       \* a subpath added twice, once backwards
Double == 11       \* every subpath twice
Swap == 12         \* operands exchanged
Translate == 13
Mirror == 14       \* one coordinate negated
Transpose == 15    \* coordinates exchanged
Scale == 16        \* by 2^exponent, together with the accuracy
Kinds == 1..16
Global == {Swap, Translate, Mirror, Transpose, Scale}

(* State: w, the winding numbers of the two operands at each sample; par,  *)
(* whether they are known only up to even numbers; e, the scale so far.    *)
Neg(ws) == [s \in DOMAIN ws |-> -ws[s]]
Twice(ws) == [s \in DOMAIN ws |-> 2 * ws[s]]
Effect(st, rw) ==
    CASE rw[1] = ReverseAll  -> [st EXCEPT !.w[rw[2]] = Neg(@)]
      [] rw[1] = ReverseSome -> [st EXCEPT !.par = TRUE]
      [] rw[1] = Double      -> [st EXCEPT !.w[rw[2]] = Twice(@)]
      [] rw[1] = Swap        -> [st EXCEPT !.w = <<@[2], @[1]>>]
      [] rw[1] \in {Mirror, Transpose} -> [st EXCEPT !.w = <<Neg(@[1]), Neg(@[2])>>]
      [] rw[1] = Scale       -> [st EXCEPT !.e = @ + rw[3]]
      [] OTHER               -> st

(* Which points of the samples the operation must keep.                    *)
Rule(st) == IF st.par THEN {EvenOdd} ELSE Rules
Expected(st, rule, op) == {s \in DOMAIN st.w[1] : InResult(rule, op, st.w[1][s], st.w[2][s])}
=============================================================================
