----------------------------- MODULE MC_Tensor -----------------------------
(* Histories of one tensor: every storage form, every way of writing.         *)
EXTENDS Tensor
CONSTANTS D
VARIABLE n
mvars == <<ten, n>>
E2(i, j, v) == [k \in 1..9 |-> IF k = (3 * i) + j + 1 THEN v ELSE 0]
Others(rp) == {x \in {E2(0, 0, 1), <<1, 2, 0, 2, -1, 0, 0, 0, 3>>, <<0, 1, 2, 1, 0, 3, 2, 3, -1>>, <<0, 1, 2, 3, 4, 5, 6, 7, 8>>} : Holds(2, 1, rp, x)}
Ix == {ix \in (0..2) \X (0..2) : TRUE}
MInit == /\ n = 0
         /\ \/ \E rp \in 0..2 : ten = [Blank(2) EXCEPT !.rp = rp]
            \/ \E r \in 3..4, rp \in 0..2, ca \in 0..1 : (r = 4 => ca = 1) /\ ten = [r |-> r, rp |-> rp, ca |-> ca, x |-> Zero(r)]
Ops2 == {[f |-> "sym", ix |-> ix, v |-> v] : ix \in {i \in Ix : Plane((3 * i[1]) + i[2]) \/ ten.rp = 1}, v \in {-1, 2}}
  \cup {[f |-> "add", ix |-> ix, v |-> 1, al |-> -2] : ix \in {i \in Ix : i[1] <= i[2] /\ (Plane((3 * i[1]) + i[2]) \/ ten.rp = 1)}}
  \cup {[f |-> "raw", m |-> m, n |-> 0, v |-> v] : m \in 0..(Dim(ten.rp) - 1), v \in {1, -2}}
  \cup {[f |-> f, q |-> ten.rp, al |-> a, x |-> x] : f \in {"upd", "cpy"}, a \in {-1, 2}, x \in Others(ten.rp)}
  \cup {[f |-> "std", x |-> x] : x \in Others(0)}
  \cup {[f |-> "clr"], [f |-> "gen"], [f |-> "s2s"]}
Ops34 == {[f |-> "std", x |-> [k \in 1..Size(ten.r) |-> IF k \in {a, b} THEN 1 ELSE 0]] : a \in {1, 2, 5, 7, 16}, b \in 1..Size(ten.r)}
  \cup {[f |-> "raw", m |-> m, n |-> w, v |-> 1] : m \in 0..(Dims(ten)[1] - 1), w \in 0..(Dims(ten)[2] - 1)}
MNext == /\ n < IF ten.r = 2 THEN D ELSE 1
         /\ n' = n + 1
         /\ \E e \in (IF ten.r = 2 THEN Ops2 ELSE Ops34) : ten' = Does(ten, e).t
Kept == Typed(ten)
\* the coordinates determine the tensor, and forms hold exactly what their coordinates span
Spanned == \A rp \in 0..2 :
  Holds(ten.r, ten.ca, rp, ten.x) <=>
    (rp = 0 \/ LET s == TLCEval(Kel(ten.r, ten.ca, ten.x))  np == NP(ten.r, ten.ca)  nq == NQ(ten.r, ten.ca)
               IN \A p \in 0..(np - 1), q \in 0..(nq - 1) :
                    ((np = 9 /\ p >= Dim(rp)) \/ (nq = 9 /\ q >= Dim(rp))) => At(s, nq, p, q) = 0)
Rev == PairNo = [p \in 1..9 |-> (CHOOSE m \in 0..8 : PairAt[m + 1] = p - 1)]
=============================================================================
