--------------------------- MODULE GenInvariants ---------------------------
(* Every derivative in every form on sums of two basis tensors, all stations  *)
(* of the octahedral plane, and histories of elastic constants.               *)
EXTENDS Invariants, Json
CONSTANTS W
VARIABLES sc
Head0 == [e |-> "reset", prop |-> "T03"]
One(rp, p, v) == M2(LAMBDA i, j : IF (3 * i) + j = p \/ (rp # 0 /\ (3 * j) + i = p) THEN v ELSE 0)
Can(rp, p) == rp = 0 \/ (p \div 3 <= p % 3 /\ (rp = 2 => InPlane(p \div 3, p % 3)))
Firsts == <<"norm", "jj2", "jj3", "sigs", "p", "sigt", "q", "lode">>
Seconds == <<"2jj2", "2jj3", "2sigt", "2q", "2lode", "inv", "invs", "sq", "sqs">>
Dop(w, rp, rc, a, lp) == [e |-> "op", f |-> "deri", w |-> w, ra |-> rp, rc |-> rc, a |-> a, lp |-> lp]
All1(rp, a) == [n \in 1..8 |-> Dop(Firsts[n], rp, 1, a, 0)]
All2(rp, a, lp) == [n \in 1..9 |-> Dop(Seconds[n], rp, IF Seconds[n] \in {"inv", "sq"} THEN 0 ELSE 1, a, lp)]
Iop(f, rp, a) == [e |-> "op", f |-> f, ra |-> rp, a |-> a]
Pairs == \E rp \in 0..2 : \E p \in 0..8, q \in 0..8, lp \in 0..1 :
  /\ Can(rp, p) /\ Can(rp, q) /\ p <= q
  /\ LET a == TLCEval(Lin(1, One(rp, p, 2), 1, One(rp, q, -W))) IN
     sc = <<Head0, Iop("inv", rp, a)>> \o (IF rp = 0 THEN <<>> ELSE <<Iop("back", rp, a)>>)
          \o <<Iop("spec", rp, a) @@ [two |-> 0], Iop("spec", rp, a) @@ [two |-> 1]>> \o All1(rp, a) \o All2(rp, a, lp)
\* forms that do not match
Wrong == \E rp \in 0..2, rc \in 0..2 :
  sc = <<Head0>> \o [n \in 1..9 |-> Dop(Seconds[n], rp, rc, One(rp, 4, 3), 0)]
Stations == \E two \in 0..1, r \in {0, 2, 3} :
  sc = <<Head0>> \o [n \in 1..19 |-> [e |-> "op", f |-> "oct", by |-> "lode", d |-> n - 8, r |-> r, k |-> n - 10, two |-> two]]
       \o [n \in 1..27 |-> [e |-> "op", f |-> "oct", by |-> "alpha", d |-> 5 - n, r |-> r, k |-> n - 14, two |-> two]]
Yp(k, two, ps, en, nn, nd, a) == [e |-> "op", f |-> "ela", k |-> k, two |-> two, ps0 |-> ps, ra |-> IF two + ps > 0 THEN 2 ELSE 1, rc |-> IF two + ps > 0 THEN 2 ELSE 1, a |-> a,
  en |-> en, nn |-> nn, nd |-> nd, s |-> IF ps = 1 THEN 2 * (nd + nn) * (nd - nn) ELSE 2 * (nd + nn) * (nd - (2 * nn)), cs |-> 2 * en * nd,
  zs |-> (nd + nn) * (nd - nn), bs |-> 3 * (nd - (2 * nn)), ss |-> 2 * (nd + nn), ys |-> 1, ps |-> nd]
Bs(two, ps, b, g, a) == [e |-> "op", f |-> "ela", k |-> "bs", two |-> two, ps0 |-> ps, ra |-> IF two + ps > 0 THEN 2 ELSE 1, rc |-> IF two + ps > 0 THEN 2 ELSE 1, a |-> a,
  bk |-> b, sh |-> g, s |-> IF ps = 1 THEN 2 * ((3 * b) + (4 * g)) ELSE 6, cs |-> 36 * b * g, zs |-> (3 * b) + (4 * g), bs |-> 1, ss |-> 1,
  ys |-> (3 * b) + g, ps |-> (6 * b) + (2 * g)]
Elastic == \E two \in 0..1, ps \in 0..1, p \in 0..8 :
  /\ Can(IF two + ps > 0 THEN 2 ELSE 1, p)
  /\ LET a == One(1, p, W) IN
     sc = <<Head0, Yp("new", two, ps, 6, 1, 4, a), Bs(two, ps, 5, 3, a), Yp("yp", two, ps, 9, 0, 3, a), Yp("yp", two, ps, 9, -1, 3, a), Bs(two, ps, 1, 6, a), Yp("yp", two, ps, 2, 9, 20, a)>>
Init == Pairs \/ Wrong \/ Stations \/ Elastic
Emit == PrintT(<<"GEN", ToJson(sc)>>)
Next == FALSE /\ UNCHANGED sc
=============================================================================
