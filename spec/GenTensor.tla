----------------------------- MODULE GenTensor -----------------------------
(* Every 0/1 second-order component set, and sets with one or two components  *)
(* of higher order, with and without their mirror images, in every form.      *)
EXTENDS Tensor, Json
CONSTANTS M
VARIABLES sc
Head0(r) == [e |-> "reset", prop |-> "T01", r |-> r]
Make(rp, ca) == [e |-> "op", f |-> "new", rp |-> rp, ca |-> ca, via |-> 0]
Put(x, v) == [e |-> "op", f |-> "std", x |-> x, via |-> v]
Sets2 == \E x \in [1..9 -> 0..1], rp \in 0..2 :
  sc = <<Head0(2), Make(rp, 1), Put(x, 0), Put([k \in 1..9 |-> 2 * x[k]], 1), Put(x, 2)>>
\* an entry with its mirror images, and one entry of the result changed
Full(r, ca, rp, k) == LET np == NP(r, ca)  nq == NQ(r, ca)  p == (k - 1) \div nq  q == (k - 1) % nq
                      IN {(a * nq) + b + 1 : a \in IF np = 9 /\ rp # 0 THEN {p, Swap(p)} ELSE {p}, b \in IF nq = 9 /\ rp # 0 THEN {q, Swap(q)} ELSE {q}}
Sets34 == \E r \in 3..4, ca \in 0..1, rp \in 0..2, via \in 0..1 : \E k \in 1..Size(r) : \E w \in Full(r, ca, rp, k) \cup {0} :
  /\ r = 4 => ca = 1
  /\ LET f == Full(r, ca, rp, k)
     IN sc = <<Head0(r), Make(rp, ca), Put([j \in 1..Size(r) |-> IF j \in f /\ j # w THEN 1 ELSE IF j = w THEN 3 ELSE 0], via),
               Put([j \in 1..Size(r) |-> IF j \in f THEN 2 ELSE 0], (2 * via) + 1 - via)>>
Singles == \E r \in 2..4, ca \in 0..1, rp \in 0..2 : \E m \in 0..(NP(r, ca) - 1), n \in 0..(NQ(r, ca) - 1) :
  /\ r # 3 => ca = 1
  /\ m < Dims([r |-> r, ca |-> ca, rp |-> rp])[1] /\ n < Dims([r |-> r, ca |-> ca, rp |-> rp])[2]
  /\ sc = <<Head0(r), Make(rp, ca), [e |-> "op", f |-> "raw", m |-> m, n |-> n, v |-> M], [e |-> "op", f |-> "cln"],
            [e |-> "op", f |-> "upd", q |-> rp, al |-> -2, x |-> [k \in 1..Size(r) |-> 0]]>>
Symm == \E r \in 2..4, ca \in 0..1, rp \in 1..2 : \E ix \in [1..r -> 0..2] :
  /\ r # 3 => ca = 1
  /\ LET t == [r |-> r, ca |-> ca, rp |-> rp]
     IN /\ rp = 2 => \A k \in Same(t, ix) : LET p == (k - 1) \div NQ(r, ca)  q == (k - 1) % NQ(r, ca)
                                            IN (NP(r, ca) = 9 => Plane(p)) /\ (NQ(r, ca) = 9 => Plane(q))
        /\ sc = <<Head0(r), Make(rp, ca), [e |-> "op", f |-> "sym", ix |-> ix, v |-> M], [e |-> "op", f |-> "cln"]>>
Init == ten = 0 /\ (Sets2 \/ Sets34 \/ Singles \/ Symm)
Emit == PrintT(<<"GEN", ToJson(sc)>>)
Next == FALSE /\ UNCHANGED <<sc, ten>>
=============================================================================
