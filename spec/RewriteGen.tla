----------------------------- MODULE RewriteGen -----------------------------
(* Programs of rewrites, printed for replay; and what rewriting must not   *)
(* change, as invariants of the machine itself, over all small windings.   *)
EXTENDS Rewrite, TLC, Json, FiniteSets
CONSTANTS Steps, WMax
VARIABLES st0, st, prog, swaps, doubles, out
vars == <<st0, st, prog, swaps, doubles, out>>
Init == /\ \E a \in -WMax..WMax : \E b \in -WMax..WMax : st0 = [w |-> <<<<a>>, <<b>>>>, par |-> FALSE, e |-> 0]
        /\ st = st0 /\ prog = <<>> /\ swaps = FALSE /\ doubles = {} /\ out = FALSE
Count(k) == Cardinality({i \in 1..Len(prog) : prog[i][1] = k})
May(rw) == /\ rw[1] \in Global => rw[2] = 1
           /\ rw[1] # Scale => rw[3] = 0
           /\ rw[1] = Scale => rw[3] # 0 /\ st.e + rw[3] \in -60..60
           /\ rw[1] \in {Double, Cancel, Translate, Insert, Split} => Count(rw[1]) < 2
Do(rw) == /\ May(rw) /\ Len(prog) < Steps /\ prog' = Append(prog, rw) /\ st' = Effect(st, rw)
          /\ swaps' = (swaps # (rw[1] = Swap))
          /\ doubles' = IF rw[1] = Double THEN doubles \cup {IF swaps THEN 3 - rw[2] ELSE rw[2]} ELSE doubles
          /\ UNCHANGED <<st0, out>>
Step == \E k \in Kinds : \E o \in {1, 2} : \E e \in {-37, -5, 0, 3, 40} : Do(<<k, o, e>>)
Emit == Len(prog) = Steps /\ ~out /\ out' = TRUE /\ PrintT("GEN|" \o ToJson([prog |-> prog])) /\ UNCHANGED <<st0, st, prog, swaps, doubles>>
Spec == Init /\ [][Step]_vars
SimSpec == Init /\ [][Step \/ Emit]_vars
TypeOK == st.e \in -60..60

(* Under the non-zero rule nothing ever changes; under even-odd only       *)
(* doubling an operand does (it empties it); exchanging the operands does  *)
(* not matter for the symmetric operations.                                *)
In0(rule, k) == Inside(rule, st0.w[k][1]) /\ ~(rule = EvenOdd /\ k \in doubles)
Same == \A rule \in Rule(st) : \A op \in Ops :
    LET a == In0(rule, 1)  b == In0(rule, 2)
        want == IF swaps /\ op = Difference THEN Keep(op, b, a) ELSE Keep(op, a, b)
    IN (Expected(st, rule, op) # {}) = want
=============================================================================
