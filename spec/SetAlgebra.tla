----------------------------- MODULE SetAlgebra -----------------------------
(***************************************************************************)
(* A machine with registers.  The first NIn registers hold the inputs, and *)
(* every step stores the result of an operation on two registers in a new  *)
(* one.  A register is described in two ways:                              *)
(*   - by its winding number at each of finitely many sample points, which *)
(*     for results is -1 inside and 0 outside;                             *)
(*   - by the rows of a truth table in which it is true.  A row says for   *)
(*     each input whether a point is inside it under the even-odd rule and *)
(*     under the non-zero rule (a point inside under even-odd is inside    *)
(*     under non-zero as well).                                            *)
(* A register without rows is empty for every input; two registers with    *)
(* the same rows are the same region for every input.                      *)
(***************************************************************************)
EXTENDS BoolOp, Sequences, FiniteSets

Rows(nin) == {f \in [1..nin -> {0, 1, 2}] : TRUE}   \* 0 outside, 1 inside non-zero only, 2 inside both

InputRows(nin, k, rule) == {f \in Rows(nin) : IF rule = EvenOdd THEN f[k] = 2 ELSE f[k] # 0}
(* rows of register i read under a rule; tabs: rows of the results         *)
Table(nin, tabs, i, rule) == IF i <= nin THEN InputRows(nin, i, rule) ELSE tabs[i - nin]
StepRows(nin, tabs, s) ==
    LET a == Table(nin, tabs, s[3], s[1])  b == Table(nin, tabs, s[4], s[1]) IN
    {f \in Rows(nin) : Keep(s[2], f \in a, f \in b)}

(* winding numbers of the new register at the samples                      *)
StepWinds(w, s) == [p \in 1..Len(w[s[3]]) |-> IF InResult(s[1], s[2], w[s[3]][p], w[s[4]][p]) THEN -1 ELSE 0]
=============================================================================
