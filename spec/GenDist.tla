------------------------------ MODULE GenDist ------------------------------
(* Every law over a lattice of parameters and places, and every parameter     *)
(* replaced by an inadmissible one.                                           *)
EXTENDS Base, Json, TLC
CONSTANT W
VARIABLES sc
Head0 == [e |-> "reset", prop |-> "A02"]
Op(d, p, k, n, s) == [e |-> "op", f |-> "dist", d |-> d, p |-> p, k |-> k, n |-> n, seed |-> s]
Par(d) == CASE d = "normal" -> {<<a, b>> : a \in {-20, 0, 13}, b \in {1, 8, 30}}
            [] d = "lognormal" -> {<<a, b>> : a \in {-9, 0, 8}, b \in {1, 4, 16}}
            [] d = "lognormal2" -> {<<a, b>> : a \in {1, 8, 30}, b \in {1, 5, 24}}
            [] d \in {"gumbel", "gumbel2"} -> {<<a, b>> : a \in {-16, 0, 9}, b \in {1, 8, 50}}
            [] d = "frechet" -> {<<a, b, s>> : a \in {-8, 0, 3}, b \in {1, 8, 40}, s \in {4, 8, 9, 12, 16, 17, 24, 40, 200, 400}}
            [] OTHER -> {<<a, a + b>> : a \in {-30, 0, 7}, b \in {1, 8, 60}}
Laws == {"normal", "lognormal", "lognormal2", "gumbel", "gumbel2", "frechet", "uniform"}
Good == \E d \in Laws : \E p \in Par(d), w \in 1..W :
  sc = <<Head0>> \o [i \in 1..8 |-> Op(d, p, 8 * i - 30, IF i = 4 THEN 2000 ELSE 0, 1000 * w + i)]
Bad == \E d \in Laws : \E p \in Par(d), v \in {0, -1, 99999, 88888, -88888} : \E i \in 1..Len(p) :
  sc = <<Head0, Op(d, [p EXCEPT ![i] = v], -4, 0, 1), Op(d, p, 0, 0, 1)>>
Init == Good \/ Bad
Emit == PrintT(<<"GEN", ToJson(sc)>>)
Next == FALSE /\ UNCHANGED sc
=============================================================================
