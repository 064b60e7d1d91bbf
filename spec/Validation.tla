----------------------------- MODULE Validation -----------------------------
(***************************************************************************)
(* Which inputs must be refused, and how: a machine that reads the two     *)
(* operands element by element and collects their defects.                 *)
(*                                                                         *)
(* An element is <<kind, x1, y1, ..>>: 0 move, 1 line, 2 quadratic,        *)
(* 3 cubic (the end point comes last), 4 close, 9 end of the operand.      *)
(* Coordinates are ranks (positive, ordered and equal as the numbers are)  *)
(* or NaN, PInf, NInf.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences
NaN == 0  PInf == -1  NInf == -2
Arity(k) == CASE k \in {0, 1} -> 2 [] k = 2 -> 4 [] k = 3 -> 6 [] OTHER -> 0

(* State of the reader: pen, start of the subpath, defects found.          *)
Fresh == [pen |-> <<1, 1>>, start |-> <<1, 1>>, bad |-> {}]
Coords(e) == {e[i] : i \in 2..Len(e)}
Marks(e) == (IF NaN \in Coords(e) THEN {<<"nan">>} ELSE {}) \cup
            (IF Coords(e) \cap {PInf, NInf} # {} THEN {<<"inf">>} ELSE {})
To(e) == <<e[Len(e) - 1], e[Len(e)]>>
(* nothing equals a point that is not a number                             *)
Same(p, q) == p = q /\ NaN \notin {p[1], p[2]}
Ended(s) == IF Same(s.pen, s.start) THEN {} ELSE {<<"open", s.start, s.pen>>}

Read(s, e) ==
    CASE e[1] = 0 -> [pen |-> To(e), start |-> To(e), bad |-> s.bad \cup Ended(s) \cup Marks(e)]
      [] e[1] = 4 -> [s EXCEPT !.pen = s.start]
      [] e[1] = 9 -> [Fresh EXCEPT !.bad = s.bad \cup Ended(s)]
      [] OTHER    -> [s EXCEPT !.pen = To(e), !.bad = s.bad \cup Marks(e)]

(* The answers that are allowed at the end; an answer is <<"ok">>,         *)
(* <<"nan">>, <<"inf">> or <<"open", start, end>>.                         *)
Finite(bad) == {b \in bad : b[1] = "open"} = bad
(* When a number is missing as well, an open subpath may be reported, but  *)
(* its end points need not be points.                                      *)
Allowed(bad, ans) ==
    IF bad = {} THEN ans = <<"ok">>
    ELSE \/ ans \in bad
         \/ ~Finite(bad) /\ ans[1] = "open" /\ \E b \in bad : b[1] = "open"
=============================================================================
