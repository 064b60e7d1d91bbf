------------------------------ MODULE SweepLine ------------------------------
(***************************************************************************)
(* The sweep as a machine.  A segment is <<y0, y1, x0, x1, horizontal>>    *)
(* with y0 <= y1; heights and horizontal positions are ranks.  The state   *)
(* is the list of segments just below the current line and, per segment,   *)
(* how far its strand has come: 0 not begun, 1 on its way, 2 ended.        *)
(* A line brings events <<batch, segment, x0, above, x1, below, ..>>, the  *)
(* pieces of strands on it.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Horizontal(sg) == sg[5] = 1
Present(segs, y) == {s \in 1..Len(segs) : ~Horizontal(segs[s]) /\ segs[s][1] <= y /\ y < segs[s][2]}
Only(l, S) == SelectSeq(l, LAMBDA s : s \in S)
NoRepeat(l) == Cardinality(ToSet(l)) = Len(l)

---------------------------------------------------------------------------
(* Order.  iv: the intervals <<lo, hi>> in which the listed segments lie,  *)
(* in list order: no earlier one is by more than k to the right of a later *)
(* one.                                                                    *)
Inverted(iv, k) ==
    LET f == FoldLeft(LAMBDA a, i : <<IF iv[i][1] > a[1] THEN iv[i][1] ELSE a[1],
                                      IF a[1] > iv[i][2] + k THEN a[2] \cup {<<i, a[1] - iv[i][2]>>} ELSE a[2]>>,
                      <<-2000000000, {}>>, [i \in 1..Len(iv) |-> i])
    IN f[2]

---------------------------------------------------------------------------
(* Strands.  p: the pieces of one segment on one line, in sweep order.     *)
Forwards(p) == \A i \in 1..Len(p)-1 : p[i][5] = p[i+1][3]
Backwards(p) == \A i \in 1..Len(p)-1 : p[i+1][5] = p[i][3]
Travel(p) == IF Forwards(p) THEN p ELSE Reverse(p)
(* Joined pieces, connected up at most at the first end, down at most at   *)
(* the last one.                                                           *)
Chained(p) ==
    /\ Forwards(p) \/ Backwards(p)
    /\ LET q == Travel(p) IN /\ \A i \in 2..Len(q) : q[i][4] = 0
                             /\ \A i \in 1..Len(q)-1 : q[i][6] = 0
(* What a line does to a strand in state st.                               *)
After(p) == IF Travel(p)[Len(p)][6] = 1 THEN 1 ELSE 2
Begins(sg, y, q) == y = sg[1] /\ q[1][3] = sg[3]
Ends(sg, y, q) == y = sg[2] /\ q[Len(q)][5] = sg[4]
StrandOK(sg, y, st, p) ==
    LET q == Travel(p) IN
    /\ Chained(p)
    /\ IF q[1][4] = 1 THEN st = 1 ELSE st = 0 /\ Begins(sg, y, q)
    /\ q[Len(q)][6] = 0 => Ends(sg, y, q)
    /\ Horizontal(sg) => q[1][4] = 0 /\ q[Len(q)][6] = 0
StrandDue(sg, y) == IF sg[2] <= y THEN 2 ELSE IF sg[1] <= y THEN 1 ELSE 0

---------------------------------------------------------------------------
(* Order of positions on one line.                                         *)
Ascending(x) == \A i \in 1..Len(x)-1 : x[i] <= x[i+1]
(* Segments without events on a line are passed by nobody.                 *)
Blocks(l, E) == FoldLeft(LAMBDA a, s : Append(a, a[Len(a)] + (IF s \in E THEN 0 ELSE 1)), <<0>>, l)
Passed(old, new, E) ==
    LET both == ToSet(old) \cap ToSet(new)
        bo == Blocks(old, E)  bn == Blocks(new, E)
        po == [i \in 1..Len(old) |-> old[i]]
    IN {i \in 1..Len(old) : old[i] \in both /\ \A j \in 1..Len(new) : new[j] = old[i] => bn[j] # bo[i]}

(* Batches of one range run from left to right without overlapping.        *)
Lo(e) == IF e[3] < e[5] THEN e[3] ELSE e[5]
Hi(e) == IF e[3] < e[5] THEN e[5] ELSE e[3]
BatchesOK(e) ==
    LET nb == IF e = <<>> THEN 0 ELSE e[Len(e)][1]
        of(b) == {i \in 1..Len(e) : e[i][1] = b}
        X == [b \in 1..nb |-> IF of(b) = {} THEN 0 ELSE Hi(e[CHOOSE i \in of(b) : TRUE])]
        live == {b \in 1..nb : of(b) # {}}
    IN /\ \A i \in 1..Len(e)-1 : e[i][1] <= e[i+1][1]
       /\ \A i \in 1..Len(e) : Hi(e[i]) = X[e[i][1]]
       /\ \A a, b \in live : a < b => X[a] < X[b]
       /\ \A i \in 1..Len(e) : Lo(e[i]) < Hi(e[i]) => \A b \in live : b < e[i][1] => X[b] <= Lo(e[i])
=============================================================================
