------------------------------- MODULE Dist -------------------------------
(* Probability distributions brought to a standard form: the normal, the    *)
(* doubly exponential and the uniform law.  Densities and probabilities are *)
(* compared in units of 1e-8 on the lattice k/8 of the standard variable.   *)
EXTENDS Rational
NaN == 99999
Infinite == 88888
V8(p) == p[1] * 100000000 + p[2] \div 10
One8 == 100000000
\* e^(-n/m) for small steps by repeated products
PowF(b, n) == FoldLeft(LAMBDA s, i : FMul8(s, b), One8, Idx(n))
E128 == 99221794   \* e^(-1/128)
E8 == 88249690     \* e^(-1/8)
Eplus8 == 113314845
Phi0 == 39894228
Exp8(k) == IF k >= 0 THEN PowF(E8, k) ELSE PowF(Eplus8, -k)   \* e^(-k/8)
\* density of the normal law at k/8
NormalF(k) == FMul8(Phi0, FoldLeft(LAMBDA s, i : FMul8(s, PowF(E128, 2 * i - 1)), One8, Idx(Abs(k))))
\* probability between lattice points by Simpson's rule, times 24
Simpson(f0, f1, f2) == f0 + 4 * f1 + f2
Law(d) == CASE d \in {"normal", "lognormal", "lognormal2"} -> "normal" [] d \in {"gumbel", "gumbel2", "frechet"} -> "gumbel" [] OTHER -> "uniform"
Finite(v) == Abs(v) < Infinite
\* admissible parameters
Sound(d, p) ==
  /\ \A i \in 1..Len(p) : Finite(p[i])
  /\ CASE d = "uniform" -> p[1] < p[2]
       [] d = "lognormal2" -> p[1] > 0 /\ p[2] > 0
       [] d = "frechet" -> p[2] > 0 /\ p[3] > 0
       [] OTHER -> p[2] > 0
Increase(c) == \A i \in 1..(Len(c) - 1) : c[i + 1][1] > c[i][1] \/ (c[i + 1][1] = c[i][1] /\ c[i + 1][2] + 1 >= c[i][2])
Mirror(e) == \A i \in 1..9 : Abs(V8(e.c[i]) + V8(e.cm[i]) - One8) <= 2 /\ Abs(V8(e.f[i]) - V8(e.fm[i])) <= 2
Form(e) ==
  LET k(i) == e.k + i - 1 IN
  CASE Law(e.d) = "normal" ->
         /\ Mirror(e)
         /\ \A i \in 1..9 : /\ (Abs(k(i)) <= 12 => Abs(V8(e.f[i]) - NormalF(k(i))) <= 400)
                            /\ (k(i) = 0 => Abs(V8(e.c[i]) - One8 \div 2) <= 1)
         /\ \A i \in 1..8 : LET m == IF k(i) >= 0 THEN 2 * k(i) + 1 ELSE -(2 * k(i) + 1)
                            IN m <= 60 => IF k(i) >= 0 THEN Abs(V8(e.f[i + 1]) - FMul8(V8(e.f[i]), PowF(E128, m))) <= 60
                                          ELSE Abs(V8(e.f[i]) - FMul8(V8(e.f[i + 1]), PowF(E128, m))) <= 60
         /\ \A i \in 1..7 : Abs(24 * (V8(e.c[i + 2]) - V8(e.c[i])) - Simpson(V8(e.f[i]), V8(e.f[i + 1]), V8(e.f[i + 2]))) <= 3000
    [] Law(e.d) = "gumbel" ->
         /\ \A i \in 1..9 : /\ (k(i) >= -18 => Abs(V8(e.f[i]) - FMul8(Exp8(k(i)), V8(e.c[i]))) <= 100)
                            /\ (k(i) <= 18 => Abs(V8(e.fm[i]) - FMul8(Exp8(-k(i)), V8(e.cm[i]))) <= 100)
                            /\ (k(i) = 0 => Abs(V8(e.c[i]) - 36787944) <= 1)
         /\ \A i \in 1..7 : /\ Abs(24 * (V8(e.c[i + 2]) - V8(e.c[i])) - Simpson(V8(e.f[i]), V8(e.f[i + 1]), V8(e.f[i + 2]))) <= 9000
                            /\ Abs(24 * (V8(e.cm[i]) - V8(e.cm[i + 2])) - Simpson(V8(e.fm[i]), V8(e.fm[i + 1]), V8(e.fm[i + 2]))) <= 9000
    [] OTHER ->
         \A i \in 1..9 : /\ Close(e.c[i], Min2(Max2(k(i), 0), 8), 8, 2) /\ Close(e.cm[i], Min2(Max2(-k(i), 0), 8), 8, 2)
                         /\ k(i) \notin {0, 8} => Close(e.f[i], IF k(i) \in 0..8 THEN 1 ELSE 0, 1, 2)
                         /\ k(i) \notin {0, -8} => Close(e.fm[i], IF k(i) \in (-8)..0 THEN 1 ELSE 0, 1, 2)
\* far away and close to the edge of the support
Edges(e) ==
  /\ \A i \in 1..Len(e.ff) : e.ff[i] \in {"zero", "one", "pos"}
  /\ \A i \in 1..(Len(e.fc) - 1) : Le3(e.fc[i], e.fc[i + 1])
  /\ Le3(e.rng[1], e.fc[1]) /\ Le3(e.fc[Len(e.fc)], e.rng[2])
  /\ e.fe = <<"zero", "one">> /\ e.ff[1] = "zero" /\ e.ff[Len(e.ff)] = "zero"
Moments(e) ==
  /\ e.d = "frechet" => e.mc = <<IF e.p[3] <= 8 THEN "inf" ELSE e.mc[1], IF e.p[3] <= 16 THEN "inf" ELSE e.mc[2]>> /\ (e.p[3] > 8 => e.mc[1] # "inf") /\ (e.p[3] > 16 => e.mc[2] # "inf")
  /\ e.mc[1] # "nan" /\ e.mc[2] \in {"pos", "one", "inf"}
  /\ e.d # "frechet" => e.mc[1] # "inf" /\ e.mc[2] # "inf"
  /\ ("mom" \in DOMAIN e /\ (e.d # "frechet" \/ e.p[3] >= 20)) => Close(e.mom[1], 1, 1, 100000) /\ Tiny(e.mom[2], 100000) /\ Close(e.mom[3], 1, 1, 200000)
  /\ e.d \in {"normal", "gumbel2", "lognormal2"} => Close(e.par[1], e.p[1], 8, 20) /\ Close(e.par[2], e.p[2] * e.p[2], 64, 2000)
  /\ e.d = "uniform" => Close(e.par[1], e.p[1] + e.p[2], 16, 2) /\ Close(e.par[2], (e.p[2] - e.p[1]) * (e.p[2] - e.p[1]), 768, 4)
\* each eighth of the probability gets its share of the samples (six deviations)
Samples(e) == "smp" \in DOMAIN e => /\ e.smp.same /\ e.smp.in /\ Len(e.smp.cnt) = 8
                                    /\ \A i \in 1..8 : Abs(8 * e.smp.cnt[i] - e.n) <= 8 * 90
Ok(e) == IF ~Sound(e.d, e.p) THEN e.st = "err"
         ELSE e.st = "ok" /\ Increase(e.c) /\ Form(e) /\ Edges(e) /\ Moments(e) /\ Samples(e)
=============================================================================
