------------------------------ MODULE TreeSeq -------------------------------
(***************************************************************************)
(* The balanced container as a plain list: what every operation does to    *)
(* the list and what it answers.  An operation is a record [k, a, b, v]:   *)
(*   ins  a=position, v=values (inserted one after the other)              *)
(*   del  a=position, b=count (removed one after the other at a)           *)
(*   set  a=position, v=<<value>>     (get_mut / IndexMut)                 *)
(*   add  a..b half-open, v=<<amount>> (range_mut)                         *)
(*   addall v=<<amount>> (iter_mut)                                        *)
(*   get  a=position     range a..b     iter     len                       *)
(*   pp   a=modulus, b=bound: partition point of "x mod a < b"             *)
(*   lt   a: partition point of "x < a"                                    *)
(*   oob  a=position beyond the end: insert (b=0), remove (1), range (2)   *)
(*   copy the container is replaced by a clone, or rebuilt from its items  *)
(* Positions count from 0, as in the code.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

InsertAt(s, p, v) == SubSeq(s, 1, p) \o v \o SubSeq(s, p + 1, Len(s))
RemoveAt(s, p, n) == SubSeq(s, 1, p) \o SubSeq(s, p + n + 1, Len(s))
AddIn(s, a, b, d) == [i \in 1..Len(s) |-> IF i > a /\ i <= b THEN s[i] + d ELSE s[i]]

After(s, o) ==
    CASE o.k = "ins" -> InsertAt(s, o.a, o.v)
      [] o.k = "del" -> RemoveAt(s, o.a, o.b)
      [] o.k = "set" -> [s EXCEPT ![o.a + 1] = o.v[1]]
      [] o.k = "add" -> AddIn(s, o.a, o.b, o.v[1])
      [] o.k = "addall" -> AddIn(s, 0, Len(s), o.v[1])
      [] OTHER -> s

Pred(o, x) == IF o.k = "lt" THEN x < o.a ELSE x % o.a < o.b

(* Is r (a sequence of integers) an allowed answer?                        *)
Answer(s, o, r) ==
    CASE o.k = "del" -> r = SubSeq(s, o.a + 1, o.a + o.b)
      [] o.k = "get" -> r = (IF o.a < Len(s) THEN <<s[o.a + 1]>> ELSE <<>>)
      [] o.k \in {"range", "add"} -> r = SubSeq(s, o.a + 1, o.b)
      [] o.k \in {"iter", "copy", "addall"} -> r = s
      [] o.k = "len" -> r = <<Len(s), IF s = <<>> THEN 1 ELSE 0>>
      [] o.k \in {"pp", "lt"} ->
           /\ Len(r) = 1 /\ r[1] \in 0..Len(s)
           /\ r[1] > 0 => Pred(o, s[r[1]])
           /\ r[1] < Len(s) => ~Pred(o, s[r[1] + 1])
      [] o.k = "oob" -> r = <<1>>
      [] OTHER -> r = <<>>
=============================================================================
