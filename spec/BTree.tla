-------------------------------- MODULE BTree -------------------------------
(***************************************************************************)
(* The design of the balanced sequence: a B-tree with sizes, at the level  *)
(* of nodes.  A node is <<"L", items>> or <<"I", sizes, children>>.        *)
(* Items are renumbered 1..n after every step, so a state is a tree shape; *)
(* each step checks that the tree still flattens to the list the plain     *)
(* list operation gives (refinement of TreeSeq), that it is balanced, and  *)
(* that look-ups through the sizes and searches agree with the list.       *)
(***************************************************************************)
EXTENDS TreeSeq, FiniteSets
CONSTANTS B, MaxN
H == B \div 2
VARIABLES root, okstep
vars == <<root, okstep>>

IsLeaf(t) == t[1] = "L"
Leaf(d) == <<"L", d>>
Inner(z, ch) == <<"I", z, ch>>
Data(t) == t[2]      Sizes(t) == t[2]      Kids(t) == t[3]
RECURSIVE SumS(_, _)
SumS(z, i) == IF i > Len(z) THEN 0 ELSE z[i] + SumS(z, i + 1)
Size(t) == IF IsLeaf(t) THEN Len(Data(t)) ELSE SumS(Sizes(t), 1)
RECURSIVE Flat(_)
RECURSIVE FlatKids(_, _)
FlatKids(ch, i) == IF i > Len(ch) THEN <<>> ELSE Flat(ch[i]) \o FlatKids(ch, i + 1)
Flat(t) == IF IsLeaf(t) THEN Data(t) ELSE FlatKids(Kids(t), 1)
Arity(t) == Len(t[2])

(* Child that holds offset o, and the offset in it.                        *)
RECURSIVE Child(_, _, _)
Child(z, i, o) == IF z[i] > o THEN <<i, o>> ELSE Child(z, i + 1, o - z[i])

Ins1(s, i, x) == InsertAt(s, i - 1, <<x>>)   \* x becomes element i
Tail2(s) == SubSeq(s, H + 1, Len(s))
Head2(s) == SubSeq(s, 1, H)

(* <<tree>> or <<tree, new sibling>>                                       *)
RECURSIVE Insert(_, _, _)
Insert(t, o, x) ==
    IF IsLeaf(t)
    THEN IF Len(Data(t)) < B THEN <<Leaf(Ins1(Data(t), o + 1, x))>>
         ELSE IF o <= H THEN <<Leaf(Ins1(Head2(Data(t)), o + 1, x)), Leaf(Tail2(Data(t)))>>
         ELSE <<Leaf(Head2(Data(t))), Leaf(Ins1(Tail2(Data(t)), o - H + 1, x))>>
    ELSE LET k == IF o = 0 THEN <<1, 0>> ELSE LET q == Child(Sizes(t), 1, o - 1) IN <<q[1], q[2] + 1>>
             i == k[1]
             r == Insert(Kids(t)[i], k[2], x)
             z == [Sizes(t) EXCEPT ![i] = Size(r[1])]
             ch == [Kids(t) EXCEPT ![i] = r[1]]
         IN IF Len(r) = 1 THEN <<Inner(z, ch)>>
            ELSE IF Len(ch) < B THEN <<Inner(Ins1(z, i + 1, Size(r[2])), Ins1(ch, i + 1, r[2]))>>
            ELSE IF i <= H THEN <<Inner(Ins1(Head2(z), i + 1, Size(r[2])), Ins1(Head2(ch), i + 1, r[2])),
                                  Inner(Tail2(z), Tail2(ch))>>
            ELSE <<Inner(Head2(z), Head2(ch)),
                   Inner(Ins1(Tail2(z), i + 1 - H, Size(r[2])), Ins1(Tail2(ch), i + 1 - H, r[2]))>>
InsertRoot(t, o, x) ==
    LET r == Insert(t, o, x) IN
    IF Len(r) = 1 THEN r[1] ELSE Inner(<<Size(r[1]), Size(r[2])>>, r)

Glue(a, b) == IF IsLeaf(a) THEN Leaf(Data(a) \o Data(b)) ELSE Inner(Sizes(a) \o Sizes(b), Kids(a) \o Kids(b))
(* move k elements from the front of b to the end of a                     *)
MoveLeft(a, b, k) ==
    IF IsLeaf(a) THEN <<Leaf(Data(a) \o SubSeq(Data(b), 1, k)), Leaf(SubSeq(Data(b), k + 1, Len(Data(b))))>>
    ELSE <<Inner(Sizes(a) \o SubSeq(Sizes(b), 1, k), Kids(a) \o SubSeq(Kids(b), 1, k)),
           Inner(SubSeq(Sizes(b), k + 1, Len(Sizes(b))), SubSeq(Kids(b), k + 1, Len(Kids(b))))>>
MoveRight(a, b) ==
    LET n == Arity(a) IN
    IF IsLeaf(a) THEN <<Leaf(SubSeq(Data(a), 1, n - 1)), Leaf(<<Data(a)[n]>> \o Data(b))>>
    ELSE <<Inner(SubSeq(Sizes(a), 1, n - 1), SubSeq(Kids(a), 1, n - 1)),
           Inner(<<Sizes(a)[n]>> \o Sizes(b), <<Kids(a)[n]>> \o Kids(b))>>

RECURSIVE Remove(_, _)
Remove(t, o) ==
    IF IsLeaf(t) THEN Leaf(RemoveAt(Data(t), o, 1))
    ELSE LET k == Child(Sizes(t), 1, o)
             i == k[1]
             c == Remove(Kids(t)[i], k[2])
             z == [Sizes(t) EXCEPT ![i] = @ - 1]
             ch == [Kids(t) EXCEPT ![i] = c]
         IN IF Arity(c) >= H THEN Inner(z, ch)
            ELSE LET l == IF i < Len(ch) THEN i ELSE i - 1     \* the pair to repair: l, l+1
                     p == ch[l]  q == ch[l + 1]
                     fuse == Arity(p) + Arity(q) <= B
                     pq == IF i < Len(ch) THEN MoveLeft(p, q, (Arity(q) - Arity(p)) \div 2) ELSE MoveRight(p, q)
                 IN IF fuse
                    THEN LET g == Glue(p, q) IN
                         Inner(Ins1(RemoveAt(z, l - 1, 2), l, Size(g)), Ins1(RemoveAt(ch, l - 1, 2), l, g))
                    ELSE Inner([z EXCEPT ![l] = Size(pq[1]), ![l + 1] = Size(pq[2])],
                             [ch EXCEPT ![l] = pq[1], ![l + 1] = pq[2]])
RemoveRoot(t, o) ==
    LET r == Remove(t, o) IN IF ~IsLeaf(r) /\ Arity(r) = 1 THEN Kids(r)[1] ELSE r

RECURSIVE Get(_, _)
Get(t, o) == IF IsLeaf(t) THEN Data(t)[o + 1] ELSE LET k == Child(Sizes(t), 1, o) IN Get(Kids(t)[k[1]], k[2])

(* Search through the first items of the subtrees.                         *)
RECURSIVE First(_)
First(t) == IF IsLeaf(t) THEN Data(t)[1] ELSE First(Kids(t)[1])
RECURSIVE Search(_, _)
Search(t, x) ==      \* number of items < x in a sorted tree
    IF IsLeaf(t) THEN Cardinality({i \in 1..Len(Data(t)) : Data(t)[i] < x})
    ELSE LET k == Cardinality({i \in 1..Arity(t) : First(Kids(t)[i]) < x}) IN
         IF k = 0 THEN 0 ELSE Search(Kids(t)[k], x) + SumS(SubSeq(Sizes(t), 1, k - 1), 1)

RECURSIVE Shape(_, _)      \* renumber the items from f on
RECURSIVE ShapeKids(_, _, _)
ShapeKids(ch, i, f) == IF i > Len(ch) THEN <<>> ELSE <<Shape(ch[i], f)>> \o ShapeKids(ch, i + 1, f + Size(ch[i]))
Shape(t, f) == IF IsLeaf(t) THEN Leaf([i \in 1..Len(Data(t)) |-> f + i - 1])
               ELSE Inner(Sizes(t), ShapeKids(Kids(t), 1, f))

RECURSIVE Depths(_)
Depths(t) == IF IsLeaf(t) THEN {0} ELSE UNION {{d + 1 : d \in Depths(Kids(t)[i])} : i \in 1..Arity(t)}
RECURSIVE Valid(_, _)
Valid(t, isroot) ==
    /\ Arity(t) <= B /\ (isroot \/ Arity(t) >= H)
    /\ IsLeaf(t) \/ (/\ isroot => Arity(t) >= 2
                     /\ Len(Kids(t)) = Arity(t)
                     /\ \A i \in 1..Arity(t) : Sizes(t)[i] = Size(Kids(t)[i]) /\ Valid(Kids(t)[i], FALSE))

Init == root = Leaf(<<>>) /\ okstep = TRUE
DoInsert == \E o \in 0..Size(root) :
    LET r == InsertRoot(root, o, 0) IN
    /\ Size(root) < MaxN
    /\ okstep' = (Flat(r) = InsertAt(Flat(root), o, <<0>>))
    /\ root' = Shape(r, 1)
DoRemove == \E o \in 0..Size(root)-1 :
    LET r == RemoveRoot(root, o) IN
    /\ okstep' = (Flat(r) = RemoveAt(Flat(root), o, 1))
    /\ root' = Shape(r, 1)
Next == DoInsert \/ DoRemove
Spec == Init /\ [][Next]_vars

Refines == okstep
Balanced == Valid(root, TRUE) /\ Cardinality(Depths(root)) = 1
LookupOK == /\ Flat(root) = [i \in 1..Size(root) |-> i]
            /\ \A o \in 0..Size(root)-1 : Get(root, o) = o + 1
            /\ \A x \in 0..Size(root)+2 : Search(root, x) = (IF x = 0 THEN 0 ELSE IF x > Size(root) THEN Size(root) ELSE x - 1)
=============================================================================
