----------------------------- MODULE PlanarMap ------------------------------
(***************************************************************************)
(* An arrangement: vertices, and segments between them that carry data on  *)
(* both sides.  Data are sequences of integers, or of integers modulo M    *)
(* (M = 0: not reduced): the sum over all inputs of the winding number     *)
(* around a place times the contribution of the input.  A turn counts as   *)
(* positive if it is counter-clockwise on a screen with y downwards (the   *)
(* opposite of module Geometry).                                           *)
(*                                                                         *)
(* A segment is <<p, q, cw1, ccw1, cw2, ccw2>>: its end vertices, and the  *)
(* data beside its two halves; the first half starts at p, the second at   *)
(* q, each is seen from its own start.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Red(M, x) == IF M = 0 THEN x ELSE x % M

(* The data at a place, from the winding numbers w of the inputs there.    *)
RECURSIVE Comb(_, _, _, _)
Comb(T, w, j, k) == IF j > Len(T) THEN 0 ELSE -(w[j] * T[j][k]) + Comb(T, w, j + 1, k)
DataAt(M, T, w) == [k \in 1..3 |-> Red(M, Comb(T, w, 1, k))]

(* A half is <<segment, 1 or 2>>.                                          *)
Start(E, h) == E[h[1]][h[2]]
Cw(E, h)    == E[h[1]][2*h[2] + 1]
Ccw(E, h)   == E[h[1]][2*h[2] + 2]
Halves(E)   == (1..Len(E)) \X {1, 2}
Around(E, v) == {h \in Halves(E) : Start(E, h) = v}

(* Seen from the other end, left and right are exchanged.                  *)
Mirrors(e) == e[3] = e[6] /\ e[4] = e[5]
(* A segment is there because it separates something.                      *)
Separates(e) == e[3] # e[4]

(* Going around a vertex, what lies clockwise of one half lies counter-    *)
(* clockwise of the next one: there is a rotation of the halves for which  *)
(* this is so only if every value leaves as often as it enters.            *)
Times(E, hs, d, f(_, _)) == Cardinality({h \in hs : f(E, h) = d})
RotationPossible(E, v) ==
    LET hs == Around(E, v) IN
    \A d \in {Cw(E, h) : h \in hs} \cup {Ccw(E, h) : h \in hs} :
        Times(E, hs, d, Cw) = Times(E, hs, d, Ccw)

(* A predicate of data <<kind, a1, a2, a3, m, t>>.                         *)
NonZeros(v) == Cardinality({k \in 1..3 : v[k] # 0})
Holds(q, v) ==
    LET s == q[2]*v[1] + q[3]*v[2] + q[4]*v[3] IN
    CASE q[1] = 0 -> s >= q[6]
      [] q[1] = 1 -> s % q[5] = q[6]
      [] OTHER    -> NonZeros(v) = q[6]
=============================================================================
