------------------------------ MODULE Contours ------------------------------
(***************************************************************************)
(* The shape of a result: a forest of oriented contours.                   *)
(*                                                                         *)
(* K is the sequence of contours, each <<parent, outer, closed, finite,    *)
(* areasign>> (parent 0: root; areasign +1: clockwise on a y-down screen,  *)
(* 0: too thin to tell).  G is the grouping: a sequence of sequences of    *)
(* contour numbers.  W is, for one point, the flat list k1, w1, k2, w2,    *)
(* .. of the contours with non-zero winding number around it.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Parent(K, i) == K[i][1]
Outer(K, i)  == K[i][2] = 1

Enclosing(W)  == {W[2*j - 1] : j \in 1..(Len(W) \div 2)}
RECURSIVE SumW(_, _)
SumW(W, j) == IF 2*j > Len(W) THEN 0 ELSE W[2*j] + SumW(W, j + 1)
Total(W) == SumW(W, 1)

(*--------------------------------- P02 -----------------------------------*)
(* outer contours run counter-clockwise on screen: winding number -1       *)
ContourShapeOK(K) ==
    \A i \in 1..Len(K) : /\ K[i][3] = 1 /\ K[i][4] = 1
                         /\ K[i][5] # (IF Outer(K, i) THEN 1 ELSE -1)
WindsOnce(W)       == Total(W) \in {0, -1}
InsideByContours(W) == Total(W) # 0

(*--------------------------------- P03 -----------------------------------*)
RECURSIVE Ancestors(_, _, _)
Ancestors(K, i, fuel) ==       \* i and its ancestors; fuel bounds cycles
    IF i = 0 \/ fuel = 0 THEN {} ELSE {i} \cup Ancestors(K, Parent(K, i), fuel - 1)
Chain(K, i) == Ancestors(K, i, Len(K) + 1)

RECURSIVE ReachesRoot(_, _, _)
ReachesRoot(K, i, fuel) ==
    IF i = 0 THEN TRUE ELSE IF fuel = 0 THEN FALSE ELSE ReachesRoot(K, Parent(K, i), fuel - 1)

IsForest(K) == \A i \in 1..Len(K) : /\ Parent(K, i) \in 0..Len(K)
                                    /\ ReachesRoot(K, i, Len(K) + 1)
Alternates(K) == \A i \in 1..Len(K) :
    IF Parent(K, i) = 0 THEN Outer(K, i) ELSE Outer(K, i) # Outer(K, Parent(K, i))

RECURSIVE Root(_, _, _)
Root(K, i, fuel) == IF Parent(K, i) = 0 \/ fuel = 0 THEN i ELSE Root(K, Parent(K, i), fuel - 1)

Elems(s) == {s[j] : j \in 1..Len(s)}
GroupingOK(K, G) ==
    LET ids == 1..Len(K) IN
    /\ \A g \in 1..Len(G) : Len(G[g]) > 0 /\ Elems(G[g]) \subseteq ids
    /\ \A g \in 1..Len(G) : Cardinality(Elems(G[g])) = Len(G[g])
    /\ \A g \in 1..Len(G) : LET r == G[g][1] IN
            Parent(K, r) = 0 /\ Elems(G[g]) = {i \in ids : Root(K, i, Len(K)) = r}
    /\ Len(G) = Cardinality({i \in ids : Parent(K, i) = 0})
    /\ {G[g][1] : g \in 1..Len(G)} = {i \in ids : Parent(K, i) = 0}

StructureOK(K, G) == IsForest(K) /\ Alternates(K) /\ GroupingOK(K, G)

(* The contours around a point are one chain of the forest, root down.     *)
IsChain(K, W) ==
    LET S == Enclosing(W) IN
    S = {} \/ \E i \in S : S = Chain(K, i)
=============================================================================
