----------------------------- MODULE NonlinRun -----------------------------
(* Numerical continuation: when a run stops, how steps follow one another,   *)
(* what makes a state acceptable and what the user's hooks are told.         *)
(* Parameter values are scaled by LS, unknowns by US, residuals by 1e12.     *)
EXTENDS Base

LS == 100000000
US == 1000000
Has(e, f) == f \in DOMAIN e
Get(e, f, d) == IF Has(e, f) THEN e[f] ELSE d

\* exact order of encoded floats
LexGe(a, b) == a[1] > b[1] \/ (a[1] = b[1] /\ (a[2] > b[2] \/ (a[2] = b[2] /\ a[3] >= b[3])))
ScaledL(v) == v[1] * (LS \div v[2])
ScaledU(v) == v[1] * (US \div v[2])

(* ---------------- stop criteria ---------------- *)
StopRefused(c) ==
  LET s == c.stop
      n == Len(c.u0)
  IN CASE s.k = "minu" -> s.i > n \/ (s.i <= n /\ s.v[1] * c.d >= c.u0[s.i] * s.v[2])
       [] s.k = "maxu" -> s.i > n \/ (s.i <= n /\ s.v[1] * c.d <= c.u0[s.i] * s.v[2])
       [] s.k = "norm" -> s.b >= s.t \/ s.t > n \/ s.v[1] <= 0
       [] s.k = "minl" -> s.v[1] * c.d >= c.l0 * s.v[2]
       [] s.k = "maxl" -> s.v[1] * c.d <= c.l0 * s.v[2]
       [] OTHER -> s.i < 1

\* twice the distance of a chunk's norm from the bound, in thousandths; the sign decides unless it is tiny
Chunk(s, u) == [k \in 1..(s.t - s.b) |-> Abs(u[s.b + k]) \div 1000]
NormGap(s, u) ==
  LET w == Chunk(s, u)
      t == (s.v[1] * 1000) \div s.v[2]
      big == \E k \in 1..Len(w) : w[k] > 20000
  IN IF big THEN 1000000
     ELSE CASE s.n = "max" -> MaxSeq(w) - t
            [] s.n = "one" -> SumSeq(w) - t
            [] OTHER -> LET q == SumF(LAMBDA k : w[k] * w[k], Len(w)) IN (q - t * t) \div (t + 1)

\* certainly met / certainly not met, at an accepted state after `att` attempts
Met(c, att, x) ==
  LET s == c.stop IN
  CASE s.k = "minu" -> LexGe(c.tb, x.ub[s.i])
    [] s.k = "maxu" -> LexGe(x.ub[s.i], c.tb)
    [] s.k = "norm" -> NormGap(s, x.u) > 10
    [] s.k = "minl" -> LexGe(c.tb, x.lb)
    [] s.k = "maxl" -> LexGe(x.lb, c.tb)
    [] OTHER -> att >= s.i
Unmet(c, att, x) ==
  LET s == c.stop IN
  CASE s.k = "minu" -> x.u[s.i] > ScaledU(s.v) + 1
    [] s.k = "maxu" -> x.u[s.i] < ScaledU(s.v) - 1
    [] s.k = "norm" -> NormGap(s, x.u) < -10
    [] s.k = "minl" -> x.l > ScaledL(s.v) + 1
    [] s.k = "maxl" -> x.l < ScaledL(s.v) - 1
    [] OTHER -> att < s.i

(* ---------------- increments ---------------- *)
Lambda(c) == c.stop.k \in {"minl", "maxl"}
Toward(c) == (c.stop.k = "maxl" /\ c.dir > 0) \/ (c.stop.k = "minl" /\ c.dir < 0)
Dist(c, x) == Abs(ScaledL(c.stop.v) - x.l)
Auto(c) == c.ddl.k = "auto"
First(c) == IF Lambda(c) THEN Min2(ScaledL(c.ddl.v[1]), Abs(ScaledL(c.stop.v) - c.l0s)) ELSE ScaledL(c.ddl.v[1])
Limited(c, x, h) == IF Toward(c) THEN Min2(h, Dist(c, x)) ELSE h
\* prescribed increment of step k
Prescribed(c, k) == IF c.ddl.k = "list" /\ k > 1 THEN ScaledL(c.ddl.v[k]) ELSE First(c)
Reduced(h, mf) == IF h >= 2000000000 THEN h ELSE (h \div mf[2]) * mf[1] + ((h % mf[2]) * mf[1]) \div mf[2]

\* the controller multiplies the stepsize by 1 + atan(x - 1), x > 0, and never enlarges it after a failure
GrowthOk(cf, h, hn, failed) == h < 800000000 /\ hn < 2000000000 =>
  /\ hn >= (h \div 10000) * 2146 - 10000
  /\ hn <= (h \div 1000) * 2571 + 3000
  /\ (failed => hn <= h + 6)
  /\ (cf.tg = 0 /\ cf.nr = 0 => Near(hn, h, 1))

(* ---------------- acceptable states ---------------- *)
\* in units of 1e-12: below the residual tolerance
SmallResidual(cf, g) == \A i \in 1..Len(g) : Abs(g[i]) <= Pow(10, 12 - cf.tr) + 1
\* residual is the image of a correction within the tolerance (units of 1e-9); x0 = state at the start of the step
Whole(v, s) == Min2(Abs(v) \div s + 1, 2000)
Delta(cf, x) == 2 * (Pow(10, 9 - Min2(cf.ta, 9)) + Pow(10, 9 - cf.tb) * x) + 1
SmallCorrection(cf, g, j, x0) ==
  /\ cf.norel = 0
  /\ \A i \in 1..Len(g) :
       Abs(g[i]) \div 1000 <= SumF(LAMBDA k : Whole(j[i][k], 1000) * Delta(cf, Whole(x0.u[k], US)), Len(g))
                              + Whole(j[i][Len(g) + 1], 1000) * Delta(cf, Whole(x0.l, LS)) + 1

\* determinant of the leading square part, of its whole thousands
Det(j) == LET a == [i \in 1..Len(j) |-> [k \in 1..Len(j) |-> j[i][k] \div 1000]] IN
  CASE Len(j) = 1 -> a[1][1]
    [] Len(j) = 2 -> a[1][1] * a[2][2] - a[1][2] * a[2][1]
    [] OTHER -> a[1][1] * (a[2][2] * a[3][3] - a[2][3] * a[3][2]) - a[1][2] * (a[2][1] * a[3][3] - a[2][3] * a[3][1])
                + a[1][3] * (a[2][1] * a[3][2] - a[2][2] * a[3][1])

(* ---------------- directions along the curve ---------------- *)
\* thousandths of the unit vector along the predictor, from scaled differences
Scale(h) == IF h < 30000000 THEN 1000 ELSE 100000    \* LS units per length unit
Dir(e) == LET dl == e.l1 - e.l0
              du == [k \in 1..Len(e.u1) |-> 100 * (e.u1[k] - e.u0[k])]
          IN Append(du, dl)
Coarse(v, s) == [k \in 1..Len(v) |-> v[k] \div s]
Sq(v) == SumF(LAMBDA k : v[k] * v[k], Len(v))
Small(e, lim) == \A k \in 1..Len(e.u1) : Abs(e.u1[k] - e.u0[k]) < lim
LengthOk(e, h) ==
  LET s == Scale(h)
      w == h \div s
  IN h > 100000 /\ h < 1000000000 =>
       /\ Small(e, 20000000)
       /\ Abs(Sq(Coarse(Dir(e), s)) - w * w) <= 8 * (w + 1) + w \div 2
Dot(v, w) == SumF(LAMBDA k : v[k] * w[k], Len(v))
Unit(e, h) == LET s == Scale(h) IN [k \in 1..(Len(e.u1) + 1) |-> (Coarse(Dir(e), s)[k] * 1000) \div (h \div s)]
RowMax(r) == MaxSeq([k \in 1..Len(r) |-> Abs(r[k])])
TangentOk(j, v) == \A i \in 1..Len(j) : LET m == RowMax(j[i]) \div 1000 + 1
                                        IN Abs(Dot([k \in 1..Len(j[i]) |-> j[i][k] \div m], v)) <= 40000
=============================================================================
