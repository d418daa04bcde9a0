----------------------------- MODULE OdeValues ------------------------------
(* Solutions the integrators must reproduce: exact integer arithmetic on     *)
(* scaled values.  A station is a fraction <<numerator, denominator>>.       *)
EXTENDS OdeRun

\* t * X / D without overflow (t scaled)
MulF(t, f) == (t \div f[2]) * f[1] + RoundDiv((t % f[2]) * f[1], f[2])
PowF(f, k, s) == FoldLeft(LAMBDA t, i : MulF(t, f), s, Idx(k))

\* y_i(x) = y0_i + sum_k a_ik (x^(k+1) - x0^(k+1)) / den
PolyAt(c, i, f, s) ==
  LET a == c.prob.a[i]
      x0 == <<c.x0, c.xd>>
      T(k) == RoundDiv(a[k] * (PowF(f, k, s) - PowF(x0, k, s)), c.prob.den)
  IN RoundDiv(c.y0[i] * s, c.yd) + SumF(T, Len(a))
\* rounding of the integer powers grows with the size of the terms
PolyMag(c, i, f, s) ==
  LET a == c.prob.a[i]
      T(k) == RoundDiv(Abs(a[k]) * (Abs(PowF(f, k, s)) + Abs(PowF(<<c.x0, c.xd>>, k, s))), c.prob.den)
  IN SumF(T, Len(a)) \div 20000
PolyTol(c) == 4 + Len(c.prob.a[1])

\* y1' = -y1^2, y2' = -2 y1 y2:  y1 = Y/(Y t + yd), y2 = y20 (yd/(Y t + yd))^2
RatAt(c, i, f, s) ==
  LET tn == f[1] * c.xd - c.x0 * f[2]
      td == f[2] * c.xd
      yy == c.y0[1]
      den == yy * tn + c.yd * td
  IN IF i = 1 THEN RoundDiv((s \div 1000) * yy * td, den) * 1000 + RoundDiv(((s \div 1000) * yy * td - RoundDiv((s \div 1000) * yy * td, den) * den) * 1000, den)
     ELSE LET r == RoundDiv(20000 * c.yd * td, den) IN RoundDiv(RoundDiv(c.y0[2] * r * r, 4000), c.yd) * (s \div 100000)

(* linear systems y' = A y / den *)
Rows(c) == Len(c.prob.a)
ApplyA(c, v, d) == [i \in 1..Rows(c) |-> LET F(j) == c.prob.a[i][j] * v[j] IN RoundDiv(SumF(F, Rows(c)), d)]
VAdd(u, v) == [i \in 1..Len(u) |-> u[i] + v[i]]
VMaxAbs(v) == MaxSeq([i \in 1..Len(v) |-> Abs(v[i])])
\* one step with the stability polynomial whose k-th coefficient is 1/(k! * extra)
TaylorStep(c, v, d, kmax) ==
  FoldLeft(LAMBDA q, k : LET w == ApplyA(c, q[1], d * k) IN <<w, VAdd(q[2], w)>>, <<v, v>>, Idx(kmax))[2]
\* the published stability polynomials of the methods with s > p: extra term num/den relative to z^k/k!
ExtraTerm == [Rk3 |-> <<4, 24, 12>>, Merson4 |-> <<5, 120, 144>>, Fehlberg4 |-> <<5, 120, 104>>, DoPri5 |-> <<6, 720, 600>>]
TermK(c, v, d, kmax) == FoldLeft(LAMBDA q, k : ApplyA(c, q, d * k), v, Idx(kmax))
ExactPoly == {"FwEuler", "MdEuler", "Rk2", "Rk3", "Heun3", "Rk4", "Rk4alt", "Zonneveld4", "Merson4", "Fehlberg4", "DoPri5"}
MethodStep(c, v, d) ==
  LET t == TaylorStep(c, v, d, Order[c.m])
  IN IF c.m \in DOMAIN ExtraTerm
     THEN LET x == ExtraTerm[c.m]
              w == TermK(c, v, d, x[1])
          IN VAdd(t, [i \in 1..Len(w) |-> RoundDiv(w[i] * x[2], x[3])])
     ELSE t
Iterate(c, v0, d, n, exact) == FoldLeft(LAMBDA v, i : IF exact THEN MethodStep(c, v, d) ELSE TaylorStep(c, v, d, 16), v0, Idx(n))
\* backward Euler undone: v - h A v, n times
BackUndo(c, v0, d, n) == FoldLeft(LAMBDA v, i : LET w == ApplyA(c, v, d) IN [r \in 1..Len(v) |-> v[r] - w[r]], v0, Idx(n))
Y0Scaled(c, s) == [i \in 1..Len(c.y0) |-> RoundDiv(c.y0[i] * s, c.yd)]
\* bound z^(p+1)/(p+1)! per unit, in 1/s, z = norm(A)/d
ErrTerm(nrm, d, kmax, s) == FoldLeft(LAMBDA t, k : (t * nrm) \div (d * k) + 1, s, Idx(kmax))
NormA(c) == MaxSeq([i \in 1..Rows(c) |-> LET F(j) == Abs(c.prob.a[i][j]) IN SumF(F, Rows(c))])

Pow10(k) == Pow(10, k)
TolUnits(c, s) == s \div Pow10(Min2(c.par.ta, c.par.tr))   \* tolerance in units of 1/s

LinOk(c, y) ==
  LET s == 1000000
      d == c.prob.den * c.xd
      n == c.x1 - c.x0
      v0 == Y0Scaled(c, s)
      nrm == NormA(c)
  IN IF nrm * n > 5 * d THEN TRUE      \* growth beyond the integer range
     ELSE IF Fixed(c)
     THEN CASE c.m = "BwEuler" -> LET w == BackUndo(c, y, d, n) IN \A i \in 1..Len(y) : Near(w[i], v0[i], 40)
            [] c.m \in ExactPoly -> LET w == Iterate(c, v0, d, n, TRUE) IN \A i \in 1..Len(y) : Near(w[i], y[i], 40)
            [] OTHER -> LET w == Iterate(c, v0, d, n, FALSE)
                            b == 30 + 8 * n * (LET t == ErrTerm(nrm, d, Order[c.m] + 1, s) IN IF t < 1000 THEN (t * (VMaxAbs(w) \div 1000 + 1)) \div 1000 ELSE (t \div 1000 + 1) * (VMaxAbs(w) \div 1000 + 1))
                        IN \A i \in 1..Len(y) : Near(w[i], y[i], b)
     ELSE LET w == Iterate(c, v0, d, n, FALSE)
              b == 40 + VMaxAbs(w) \div 200000 + 200 * ((VMaxAbs(w) + s) \div Pow10(Min2(c.par.ta, c.par.tr)))
          IN \A i \in 1..Len(y) : Near(w[i], y[i], b)

\* error bound of a method over unit length with stepsize 1/q on the rational problem, in 1/1000000
RatBound(c) ==
  LET p == Order[c.m]
      k == CASE c.m = "Radau5" -> 1 [] OTHER -> 1
  IN 15 + (4000000 * k) \div Pow(c.xd, p)
RatOk(c, y) ==
  LET s == 1000000
      b == IF Fixed(c) THEN RatBound(c) ELSE 15 + 100 * TolUnits(c, s)
  IN \A i \in 1..Len(y) : Near(RatAt(c, i, <<c.x1, c.xd>>, s), y[i], b + (IF i = 2 THEN 60 ELSE 0))

PolyOk(c, y) ==
  LET s == 100000
      t == IF Fixed(c) THEN 0 ELSE 5 * TolUnits(c, s)
  IN \A i \in 1..Len(y) : LET w == PolyAt(c, i, <<c.x1, c.xd>>, s) IN Near(w, y[i], PolyTol(c) + t * (1 + Abs(w) \div s) + PolyMag(c, i, <<c.x1, c.xd>>, s))

FinalOk(c, y) == CASE c.prob.k = "poly" -> PolyOk(c, y)
                   [] c.prob.k = "lin" -> LinOk(c, y)
                   [] c.prob.k = "rat" /\ c.n <= 2 -> RatOk(c, y)
                   [] OTHER -> TRUE

\* dense values (1/100000) at a station
DenseValueOk(c, f, y) ==
  LET s == 100000
      t == 60
  IN CASE c.prob.k = "poly" -> \A i \in 1..Len(y) : Near(PolyAt(c, i, f, s), y[i], 10 + PolyMag(c, i, f, s))
       [] c.prob.k = "rat" /\ c.n <= 2 -> \A i \in 1..Len(y) : Near(RatAt(c, i, f, s), y[i], t)
       [] OTHER -> TRUE

(* Order of the dense output: y1' = -y1^2, y2' = -2 y1 y2 with equal steps.      *)
(* With z = h y1(x0) the relative errors depend on z alone; the tables hold, in   *)
(* 1/1000000000, one and a half times the largest error over a step for z = 1/2,  *)
(* 1/4, 1/8, 1/16 of an interpolant of the stated order.                          *)
\* n/d to nine decimals (0 <= n/d <= 2, d <= 2000000)
Nine(n, d) ==
  LET r0 == n % d
      r1 == (r0 * 1000) % d
      r2 == (r1 * 1000) % d
  IN (n \div d) * 1000000000 + ((r0 * 1000) \div d) * 1000000 + ((r1 * 1000) \div d) * 1000 + RoundDiv(r2 * 1000, d)
Rat9(c, i, f) ==
  LET tn == f[1] * c.xd - c.x0 * f[2]
      td == f[2] * c.xd
      den == c.y0[1] * tn + c.yd * td
      g == CHOOSE k \in {64, 32, 16, 8, 4, 2, 1} : den % k = 0 /\ (c.y0[1] * td) % k = 0 /\ (c.yd * td) % k = 0
                      /\ \A q \in {64, 32, 16, 8, 4, 2, 1} : (q > k => ~(den % q = 0 /\ (c.y0[1] * td) % q = 0 /\ (c.yd * td) % q = 0))
      u == (c.yd * td) \div g
      d == den \div g
  IN IF i = 1 THEN Nine((c.y0[1] * td) \div g, d) ELSE Nine(c.y0[2] * u * u, d * d * c.yd)
DenseBound == [DoPri5 |-> << <<1670000, 13300000>>, <<14400, 108000>>, <<460, 2700>>, <<18, 95>> >>,
               DoPri8 |-> << <<11000, 68000>>, <<230, 1550>>, <<6, 28>>, <<3, 4>> >>,
               Radau5 |-> << <<800000, 3500000>>, <<83000, 370000>>, <<7000, 33000>>, <<410, 2000>> >>]
\* the eighth order method with the derivative at the end of the step in its interpolant
DenseBound7 == << <<3300, 24000>>, <<30, 230>>, <<3, 4>>, <<3, 3>> >>
ZIndex(c) == LET z == <<c.y0[1] * c.heq[1], c.yd * c.heq[2]>> IN CHOOSE k \in 1..4 : z[1] * Pow(2, k) = z[2]
DenseWithin(c, f, y, tab) ==
  LET k == ZIndex(c)
  IN \A i \in 1..Len(y) : Near(Rat9(c, i, f), y[i], tab[k][i] + 3)
DenseOrderOk(c, fs, ys, tab) == \A j \in 1..Len(fs) : DenseWithin(c, fs[j], [m \in 1..c.n |-> ys[m][j]], tab)
=============================================================================
