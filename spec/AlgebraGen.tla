----------------------------- MODULE AlgebraGen -----------------------------
(* Programs over two inputs, printed for replay, and the laws of set       *)
(* algebra as invariants of the machine itself.                            *)
EXTENDS SetAlgebra, TLC, Json
CONSTANTS NIn, MaxSteps
VARIABLES prog, tabs, out
vars == <<prog, tabs, out>>
Init == prog = <<>> /\ tabs = <<>> /\ out = FALSE
Reg == 1..(NIn + Len(prog))
Newest == NIn + Len(prog)
Apply(s) == prog' = Append(prog, s) /\ tabs' = Append(tabs, StepRows(NIn, tabs, s)) /\ UNCHANGED out
Useful(i, j) == Len(prog) > 0 => (i = Newest \/ j = Newest \/ Len(prog) >= 3)
Step == /\ Len(prog) < MaxSteps
        /\ \E r \in Rules : \E o \in Ops : \E i \in Reg : \E j \in Reg : Useful(i, j) /\ Apply(<<r, o, i, j>>)
(* one random step instead of all, for generating long programs            *)
Pick(S) == RandomElement(S)
SomeStep == /\ Len(prog) < MaxSteps
            /\ \E p \in {Pick({ij \in Reg \X Reg : Useful(ij[1], ij[2])})} : \E r \in {Pick(Rules)} : \E o \in {Pick(Ops)} :
                 Apply(<<r, o, p[1], p[2]>>)
Emit == Len(prog) = MaxSteps /\ ~out /\ out' = TRUE /\ PrintT("GEN|" \o ToJson([prog |-> prog])) /\ UNCHANGED <<prog, tabs>>
Spec == Init /\ [][Step]_vars
SimSpec == Init /\ [][SomeStep \/ Emit]_vars
TypeOK == \A k \in 1..Len(tabs) : tabs[k] \subseteq Rows(NIn)

(* The laws, for whatever the newest two results are.                      *)
T(o, a, b) == {f \in Rows(NIn) : Keep(o, f \in a, f \in b)}
Laws == \A i \in 1..Len(tabs) : \A j \in 1..Len(tabs) :
    LET a == tabs[i]  b == tabs[j] IN
    /\ T(Union, a, a) = a /\ T(Intersection, a, a) = a /\ T(Difference, a, a) = {} /\ T(SymDiff, a, a) = {}
    /\ T(SymDiff, a, b) = T(Difference, T(Union, a, b), T(Intersection, a, b))
    /\ T(Union, T(Difference, a, b), T(Intersection, a, b)) = a
    /\ T(Intersection, T(Difference, a, b), b) = {}
    /\ T(SymDiff, T(SymDiff, a, b), b) = a
    /\ T(Union, a, T(Intersection, a, b)) = a
=============================================================================
