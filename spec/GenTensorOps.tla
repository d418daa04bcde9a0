--------------------------- MODULE GenTensorOps ---------------------------
(* Operations on pairs of basis tensors in every form, and the constants.     *)
EXTENDS TensorOps, Json, TLC
CONSTANTS W
VARIABLES sc
Head0 == [e |-> "reset", prop |-> "T02"]
One(rp, p, v) == M2(LAMBDA i, j : IF (3 * i) + j = p \/ (rp # 0 /\ (3 * j) + i = p) THEN v ELSE 0)
Can(rp, p) == rp = 0 \/ (p \div 3 <= p % 3 /\ (rp = 2 => InPlane(p \div 3, p % 3)))
Z4(rp) == M4(LAMBDA i, j, k, l : IF rp = 2 /\ ~(InPlane(i, j) /\ InPlane(k, l)) THEN 0 ELSE 5)
Z2(rp) == M2(LAMBDA i, j : IF rp = 2 /\ ~InPlane(i, j) THEN 0 ELSE 5)
Op2(f, rp, a, b, rc) == [e |-> "op", f |-> f, ra |-> rp, rb |-> rp, rc |-> rc, a |-> a, b |-> b, al |-> 2, be |-> 3]
Pairs == \E rp \in 0..2 : \E p \in 0..8, q \in 0..8 :
  /\ Can(rp, p) /\ Can(rp, q)
  /\ LET a == One(rp, p, 2)  b == One(rp, q, W)  s == Lin(1, a, 1, b) IN
     sc = <<Head0, Op2("od", rp, a, b, 0) @@ [z |-> Z4(0)], Op2("ud", rp, a, b, 0) @@ [z |-> Z4(0)], Op2("qsd", rp, a, b, 1) @@ [z |-> Z4(1), lp |-> 0],
            Op2("qsd", rp, a, b, 1) @@ [z |-> Z4(1), lp |-> 1], Op2("ssd", rp, s, b, 1) @@ [z |-> Z4(1), lp |-> 0], Op2("ssd", rp, s, b, 1) @@ [z |-> Z4(1), lp |-> 1],
            Op2("dot22", rp, a, b, 0) @@ [z |-> Z2(0)], Op2("dd22", rp, a, b, 0), Op2("dy22u", rp, a, b, rp) @@ [z |-> Z4(rp)],
            Op2("own", rp, s, b, 0) @@ [v |-> <<1, 2, 3>>], Op2("sq", rp, s, b, rp) @@ [z |-> Z2(rp)], Op2("dec", rp, s, b, rp) @@ [z |-> Z2(rp)],
            Op2("tra", rp, s, b, rp) @@ [z |-> Z2(rp)], Op2("inv", rp, Lin(1, s, 1, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>), b, rp) @@ [z |-> Z2(rp)], Op2("dev", rp, s, b, rp) @@ [z |-> Z2(rp)]>>
Consts == \E red \in 0..1 :
  sc = <<Head0>> \o [n \in 1..8 |-> [e |-> "op", f |-> "const", c |-> <<"ii", "tt", "jj", "iso", "sym", "skew", "dev", "symdev">>[n], red |-> red]]
    \o [n \in 1..3 |-> [e |-> "op", f |-> "setpp", rc |-> n - 1, z |-> Z4(n - 1)]]
    \o [n \in 1..3 |-> [e |-> "op", f |-> "inv4", rc |-> n - 1, rd |-> n - 1, z |-> Z4(n - 1), c |-> 0, d |-> [k \in 1..81 |-> 0]]]
Init == Pairs \/ Consts
Emit == PrintT(<<"GEN", ToJson(sc)>>)
Next == FALSE /\ UNCHANGED sc
=============================================================================
