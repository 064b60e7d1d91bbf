------------------------------ MODULE ValidGen ------------------------------
(* Pairs of operands with and without defects, printed for replay.  Clean  *)
(* behaviours only end subpaths where they started; poisoned ones put in   *)
(* up to two coordinates that are not finite, anywhere.                    *)
EXTENDS Validation, TLC, Json
CONSTANTS G, MaxEls
VARIABLES s, els, which, clean, poison, done
vars == <<s, els, which, clean, poison, done>>
P == (1..G) \X (1..G)
Init == /\ s = Fresh /\ els = <<>> /\ which = 1 /\ done = FALSE
        /\ clean \in {TRUE, FALSE} /\ poison \in {0, 0, 1, 2}
Started == els # <<>> /\ els[Len(els)][1] # 9
Put(e) == els' = Append(els, e) /\ s' = Read(s, e)
Room == Len(els) < MaxEls
MayEnd == clean => s.pen = s.start
Keep == UNCHANGED <<which, clean, poison, done>>
Move == Room /\ MayEnd /\ (\E p \in P : Put(<<0>> \o p)) /\ Keep
Line == Room /\ Started /\ (\E p \in P : Put(<<1>> \o p)) /\ Keep
Back == Room /\ Started /\ Put(<<1>> \o s.start) /\ Keep
BackCurve == Room /\ Started /\ (\E p \in P : Put(<<2>> \o p \o s.start) \/ Put(<<3>> \o p \o <<p[2], p[1]>> \o s.start)) /\ Keep
Quad == Room /\ Started /\ (\E p \in P : \E q \in {<<1, 1>>, <<G, 1>>, <<2, G>>} : Put(<<2>> \o q \o p)) /\ Keep
Cubic == Room /\ Started /\ (\E p \in P : \E q \in {<<1, 1>>, <<G, 2>>} : Put(<<3>> \o q \o <<q[2], q[1]>> \o p)) /\ Keep
Close == Room /\ Started /\ Put(<<4>>) /\ Keep
Swap(e, i, v) == [e EXCEPT ![i] = v]
Spoil == /\ poison > 0 /\ Room /\ poison' = poison - 1
         /\ \E e \in {<<0, 1, 2>>, <<1, 2, 1>>, <<2, 1, G, 2, 2>>, <<3, 1, 2, G, 1, 2, 2>>} :
              /\ e[1] # 0 => Started
              /\ \E i \in 2..Len(e) : \E v \in {NaN, PInf, NInf} : Put(Swap(e, i, v))
         /\ UNCHANGED <<which, clean, done>>
End == /\ MayEnd /\ which < 3 /\ (Len(els) > 4 * which \/ ~Room) /\ Put(<<9>>) /\ which' = which + 1
       /\ UNCHANGED <<clean, poison, done>>
Emit == /\ which = 3 /\ ~done /\ done' = TRUE /\ PrintT("GEN|" \o ToJson([els |-> els])) /\ UNCHANGED <<s, els, which, clean, poison>>
Next == (which < 3 /\ (Move \/ Line \/ Back \/ BackCurve \/ Quad \/ Cubic \/ Close \/ Spoil \/ End)) \/ Emit
Spec == Init /\ [][Next]_vars
TypeOK == which \in 1..3
(* A clean, unspoiled behaviour has nothing that could be refused.         *)
CleanOK == (clean /\ which = 3 /\ \A i \in 1..Len(els) : Coords(els[i]) \cap {NaN, PInf, NInf} = {}) => s.bad = {}
=============================================================================
