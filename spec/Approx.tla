------------------------------- MODULE Approx -------------------------------
(* Exact rational meaning of quadrature, polynomial interpolation, splines,   *)
(* straight-line fitting and cubic equations.  Observed numbers come as       *)
(* <<floor, nine decimals>>; the spec computes num/den and expands it.        *)
EXTENDS Rational

\* ---- integrals between a/2 and b/2
Part(c, k, t) == c[k] * Pow(t, k) * Pow(2, 6 - k) * (60 \div k)
PolyInt(c, a, b) == <<SumF(LAMBDA k : Part(c, k, b) - Part(c, k, a), Len(c)), 3840>>
PolySize(c, a, b) == SumF(LAMBDA k : Abs(Part(c, k, Max2(Abs(a), Abs(b)))), Len(c)) \div 3840 + 1
\* antiderivatives of |x - c/2| and sign(x - c/2)
AbsInt(c, a, b) == LET g(t) == (t - c[2]) * Abs(t - c[2]) IN <<c[1] * (g(b) - g(a)), 8>>
StepInt(c, a, b) == LET g(t) == Abs(t - c[2]) IN <<c[1] * (g(b) - g(a)), 2>>
Root2(t) == LET r == CHOOSE r \in 0..4 : 2 * r * r = Abs(t) IN IF t < 0 THEN -r ELSE r
SqrtInt(c, a, b) == <<2 * c[1] * (Pow(Root2(b), 3) - Pow(Root2(a), 3)), 3>>
PowInt(c, a, b) == <<Pow(b \div 2, c[1] + 1) - Pow(a \div 2, c[1] + 1), c[1] + 1>>
Integral(e) ==
  CASE e.fun = "poly" -> PolyInt(e.c, e.a, e.b)
    [] e.fun = "abs" -> AbsInt(e.c, e.a, e.b)
    [] e.fun = "step" -> StepInt(e.c, e.a, e.b)
    [] e.fun = "sqrt" -> SqrtInt(e.c, e.a, e.b)
    [] e.fun = "pow" -> PowInt(e.c, e.a, e.b)
Sound(e) == e.ng \in {6, 8, 10, 12, 14} /\ e.max >= 2 /\ e.tol <= 14
Smooth(e) == e.fun = "poly" \/ (e.fun = "pow" /\ e.c[1] <= 2 * e.ng - 1)
QTol(e) == IF Smooth(e) THEN 2 + PolySize(IF e.fun = "poly" THEN e.c ELSE <<1>>, e.a, e.b)
           ELSE 20 + (IF e.tol >= 9 THEN 10 ELSE Pow(10, 10 - e.tol)) * 50
Quad(e) ==
  IF e.a = e.b \/ ~Sound(e) THEN e.st = "err" /\ e.n = 0
  ELSE IF e.fail > 0 /\ e.n >= e.fail THEN e.st = "err" /\ e.n = e.fail
  ELSE LET lo == IF e.a < e.b THEN e.ab ELSE e.bb
           hi == IF e.a < e.b THEN e.bb ELSE e.ab
           q == Integral(e)
       IN /\ Lt3(lo, e.lo) /\ Lt3(e.hi, hi)
          /\ e.on = e.stats /\ (e.on = 1 => e.nf = e.n /\ e.n = e.ng * (1 + 2 * e.ni) /\ e.ni <= e.max)
          /\ IF e.st = "ok" THEN Close(e.v, q[1], q[2], QTol(e))
             ELSE e.st = "err" /\ (e.fun = "step" \/ ~Smooth(e) \/ e.max < 300)
          /\ (Smooth(e) /\ e.max >= 20) => e.st = "ok"
          /\ (e.fun \in {"abs", "sqrt"} /\ e.max = 300 /\ e.tol <= 8) => e.st = "ok"
QNear(e) == IF e.st = "ok" THEN Close(e.v, e.c, 1, 20) ELSE e.st = "err" /\ e.k >= (IF Abs(e.a) >= 100 THEN 34 ELSE 44)

\* ---- polynomials c[1] + c[2] x + ... at x/8, times 4096, with derivatives
Val(c, x) == SumF(LAMBDA k : c[k] * Pow(x, k - 1) * Pow(8, 5 - k), Len(c))
Der(c) == [k \in 1..(Len(c) - 1) |-> k * c[k + 1]]
\* at x/3000 rounded, times 3000
Low(c, x) == FoldLeft(LAMBDA s, k : RoundDiv(s * x, 3000) + c[Len(c) + 1 - k] * 3000, 0, Idx(Len(c)))
At4(p) == p[1] * 3000 + RoundDiv(p[2], 333333)
Amp(n, k) == LET m == Min2(n, 400) IN CASE k = 0 -> 20 [] k = 1 -> 100 + 20 * m * m [] OTHER -> 1000 + 20 * m * m * m
Grid(e) == e.grid
\* points with known rational coordinates
Points(e) ==
  /\ e.np = e.nn + 1 /\ e.inc = 1 /\ e.sym = 1
  /\ e.np <= 12 =>
       /\ Len(e.xs) = e.np
       /\ e.grid = "U" => \A j \in 0..e.nn : Close(e.xs[j + 1], 2 * j - e.nn, e.nn, 2)
       /\ e.grid = "L" => Close(e.xs[1], -1, 1, 0) /\ Close(e.xs[e.np], 1, 1, 0)
       /\ (e.grid = "L" /\ e.nn = 3) => Close(e.xs[2], -1, 2, 2) /\ Close(e.xs[3], 1, 2, 2)
       /\ (e.grid = "G" /\ e.nn = 2) => e.xs[3] = <<0, 866025404>>
       /\ (e.grid = "G" /\ e.nn = 1) => e.xs[2] = <<0, 707106781>>
       /\ (e.grid = "L" /\ e.nn = 4) => e.xs[4] = <<0, 707106781>>
       /\ (e.grid = "L" /\ e.nn = 6) => e.xs[6] = <<0, 866025404>> /\ Close(e.xs[5], 1, 2, 2)
       /\ (e.grid = "G" /\ e.nn = 4) => e.xs[5] = <<0, 951056516>> /\ e.xs[4] = <<0, 587785252>>
NodeOk(e, v) ==
  LET d1 == IF Len(e.c) > 1 THEN Der(e.c) ELSE <<0>>
      d2 == IF Len(e.c) > 2 THEN Der(d1) ELSE <<0>>
  IN /\ v.psi = <<1, 0>>
     /\ Diff(v.u, v.e) <= 2
     /\ \A k \in 1..Len(v.near) : Tiny(v.near[k], 50)
     /\ \A k \in 1..2 : Near(At4(v.g[k]), Low(d1, v.x), 60 + (Amp(e.nn, 1) \div 300000)) /\ Near(At4(v.h[k]), Low(d2, v.x), 120 + (Amp(e.nn, 2) \div 300000))
     /\ Diff(v.g[1], v.g[2]) <= Amp(e.nn, 1) /\ Diff(v.h[1], v.h[2]) <= Amp(e.nn, 2)
     /\ Tiny(v.s[1], Amp(e.nn, 1)) /\ Tiny(v.s[2], Amp(e.nn, 2))
LagPoint(e, x, v) ==
  IF Abs(x) > 8 \/ e.bad = 1 THEN v.st = "err" /\ (Abs(x) > 8 => v.psi[1] = 2000000001)
  ELSE /\ v.st = "ok"
       /\ Close(v.psi, 1, 1, 20)
       /\ LET d1 == IF Len(e.c) > 1 THEN Der(e.c) ELSE <<0>>
              d2 == IF Len(e.c) > 2 THEN Der(d1) ELSE <<0>>
          IN Close(v.v[1], Val(e.c, x), 4096, Amp(e.nn, 0)) /\ Close(v.v[2], Val(d1, x), 4096, Amp(e.nn, 1)) /\ Close(v.v[3], Val(d2, x), 4096, Amp(e.nn, 2))
Lag(e) ==
  IF e.nn < 1 \/ e.nn > 2048 \/ e.ns < 2 THEN e.st = "err"
  ELSE /\ e.st = "ok" /\ e.deg = e.nn /\ e.pre = <<0, 0>> /\ e.beyond = 1
       /\ \A k \in 1..Len(e.x) : LagPoint(e, e.x[k], e.ev[k])
       /\ e.bad = 0 =>
            /\ Points(e)
            /\ \A k \in 1..Len(e.nodes) : NodeOk(e, e.nodes[k])
            /\ (e.np > 12) \/ (Tiny(e.err, 50) /\ Tiny(e.all[1], 50) /\ Tiny(e.all[2], Amp(e.nn, 1)) /\ Tiny(e.all[3], Amp(e.nn, 2))
                             /\ e.leb[1] >= 0 /\ (e.leb[1] >= 1 \/ e.leb[2] >= 999999990)
                             /\ ((e.nn = 1 /\ e.grid # "G") => Close(e.leb, 1, 1, 10)))

\* ---- sums of Chebyshev polynomials c[1] T0 + c[2] T1 + ..., degree up to 6
\* T_n(k/4) * 4^n
Cheb4(k) == FoldLeft(LAMBDA s, n : Append(s, IF n = 1 THEN k ELSE 2 * k * s[n] - 16 * s[n - 1]), <<1>>, Idx(6))
CVal(c, k) == LET t == Cheb4(k) IN SumF(LAMBDA n : c[n] * t[n] * Pow(4, 7 - n), Min2(Len(c), 7))
Co(c, n) == IF n + 1 <= Len(c) THEN c[n + 1] ELSE 0
\* interpolation of degree N at the Lobatto points folds the higher terms
FoldIdx(n, N) == LET m == n % (2 * N) IN IF m > N THEN 2 * N - m ELSE m
Folded(c, N) == [j \in 1..(N + 1) |-> SumF(LAMBDA k : IF FoldIdx(k - 1, N) = j - 1 THEN c[k] ELSE 0, Len(c))]
AtOne(c) == SumSeq(c)
AtZero(c) == SumF(LAMBDA k : IF k % 4 = 1 THEN c[k] ELSE IF k % 4 = 3 THEN -c[k] ELSE 0, Len(c))
TopCo(c, N) == SumF(LAMBDA k : IF (k - 1) % N = 0 /\ ((k - 1) \div N) % 2 = 1 THEN c[k] ELSE 0, Len(c))
\* adaptive degree: the first N with two vanishing top coefficients in a row
AdaptAt(c, max) == {N \in 2..(max + 2) : TopCo(c, N - 1) = 0 /\ TopCo(c, N) = 0}
Adapted(c, max) ==
  IF AdaptAt(c, max) = {} THEN <<>>
  ELSE LET N == (CHOOSE n \in AdaptAt(c, max) : \A m \in AdaptAt(c, max) : n <= m) - 2
       IN IF N = 0 THEN <<AtZero(c)>> ELSE Folded(c, N)
AdaptCost(c, max) == LET N == IF AdaptAt(c, max) = {} THEN max + 2 ELSE CHOOSE n \in AdaptAt(c, max) : \A m \in AdaptAt(c, max) : n <= m
                     IN SumF(LAMBDA k : k + 1, N) + (IF AdaptAt(c, max) = {} THEN 0 ELSE N - 1)
SetData(c, nn) == IF nn = 0 THEN <<AtOne(c)>> ELSE Folded(c, nn)
\* state: [kind |-> "none" | "set" | "unk", c]
CStep(e, s, h) ==
  LET max == e.max IN
  CASE h.k = "fun" -> IF h.nn > max + 2 THEN [s EXCEPT !.st = "err"]
                      ELSE IF h.fail > 0 /\ h.fail <= h.nn + 1 THEN [kind |-> IF s.kind = "none" THEN "none" ELSE "unk", c |-> <<>>, st |-> "err"]
                      ELSE [kind |-> "set", c |-> IF h.nn = 0 THEN <<AtZero(h.c)>> ELSE Folded(h.c, h.nn), st |-> "ok"]
    [] h.k = "data" -> IF h.nn > max + 2 THEN [s EXCEPT !.st = "err"] ELSE [kind |-> "set", c |-> SetData(h.c, h.nn), st |-> "ok"]
    [] h.k = "gen" -> IF Len(h.x) - 1 > max + 2 \/ h.fail = 1 \/ h.x[1] # -9 \/ h.x[Len(h.x)] # 9 THEN [s EXCEPT !.st = "err"]
                      ELSE [kind |-> "set", c |-> Folded(h.c, Len(h.x) - 1), st |-> "ok"]
    [] h.k = "adf" -> LET a == Adapted(h.c, max)
                          bad == (h.fail > 0 /\ h.fail <= AdaptCost(h.c, max)) \/ a = <<>>
                      IN IF bad THEN [kind |-> IF s.kind = "none" THEN "none" ELSE "unk", c |-> <<>>, st |-> "err"] ELSE [kind |-> "set", c |-> a, st |-> "ok"]
    [] h.k = "add" -> IF h.nn > max + 2 THEN [s EXCEPT !.st = "err"]
                      ELSE LET a == Adapted(SetData(h.c, h.nn), max)
                           IN IF a = <<>> THEN [kind |-> IF s.kind = "none" THEN "none" ELSE "unk", c |-> <<>>, st |-> "err"] ELSE [kind |-> "set", c |-> a, st |-> "ok"]
Interp(c) == IF Len(c) > 7 THEN SubSeq(c, 1, 7) ELSE c
MaxErr(c, s) == LET d(k) == Abs(CVal(c, k) - CVal(Interp(s), k)) IN FoldLeft(LAMBDA m, k : Max2(m, d(k - 5)), 0, Idx(9))
CSeen(e, s, h, r) ==
  /\ r.st = s.st
  /\ r.ready = IF s.kind = "none" THEN 0 ELSE 1
  /\ s.kind = "none" => (\A k \in 1..Len(e.z) : r.ev[k] = <<>>) /\ r.xy.st = "err" /\ r.mx.st = "err"
  /\ s.kind = "set" =>
       LET nn == Len(s.c) - 1 IN
       /\ r.deg = nn
       /\ \A k \in 1..Len(e.z) : Len(r.ev[k]) = 2 /\ \A i \in 1..2 : Close(r.ev[k][i], CVal(Interp(s.c), e.z[k]), 4096, 60)
       /\ Len(r.co) = nn + 1 /\ \A k \in 1..(nn + 1) : Close(r.co[k], s.c[k], 1, 60)
       /\ r.xy.st = "ok" /\ Len(r.xy.x) = nn + 1 /\ Len(r.xy.y) = nn + 1
       /\ Close(r.xy.y[nn + 1], AtOne(s.c), 1, 60) /\ Close(r.xy.x[nn + 1], e.b, 10, 2)
       /\ nn > 0 => Close(r.xy.y[1], CVal(Interp(s.c), -4), 4096, 60) /\ Close(r.xy.x[1], e.a, 10, 2)
       /\ (nn > 0 /\ nn % 2 = 0) => Close(r.xy.y[nn \div 2 + 1], AtZero(s.c), 1, 60) /\ Close(r.xy.x[nn \div 2 + 1], e.a + e.b, 20, 2)
       /\ nn = 3 => Close(r.xy.y[2], CVal(s.c, -2), 4096, 60) /\ Close(r.xy.y[3], CVal(s.c, 2), 4096, 60)
       /\ r.mx.st = "ok" /\ (h.k # "gen" => Close(r.mx.v, MaxErr(h.c, s.c), 4096, 100))
ChebRun(e) == FoldLeft(LAMBDA acc, k : LET s == CStep(e, acc.s, e.h[k]) IN [s |-> s, ok |-> acc.ok /\ CSeen(e, s, e.h[k], e.r[k])],
                       [s |-> [kind |-> "none", c |-> <<>>, st |-> "ok"], ok |-> TRUE], Idx(Len(e.h)))
Che(e) ==
  IF e.b <= e.a THEN e.st = "err"
  ELSE /\ e.st = "ok" /\ Len(e.r) = Len(e.h)
       /\ Close(e.range[1], e.a, 10, 2) /\ Close(e.range[2], e.b, 10, 2) /\ Close(e.range[3], e.b - e.a, 10, 2)
       /\ ChebRun(e).ok

\* ---- splines: Cox-de Boor with 0/0 = 0, at u/4; the last non-empty span is closed
NB(e) == Len(e.kn) - e.p - 1
Kn(e, i) == e.kn[i + 1]
Inside0(e, i, u) ==
  LET top == Kn(e, NB(e)) IN
  IF u = 4 * top THEN Kn(e, i + 1) = top /\ Kn(e, i) < top ELSE 4 * Kn(e, i) <= u /\ u < 4 * Kn(e, i + 1)
QDiv(q, d) == IF d = 0 THEN Q0 ELSE Red(q[1], q[2] * d)
\* functions of order 0..p, each a sequence over the index i
Level(e, u, prev, p) ==
  [i \in 1..(Len(e.kn) - 1 - p) |->
     QAdd(QDiv(QMul(Red(u - 4 * Kn(e, i - 1), 4), prev[i]), Kn(e, i - 1 + p) - Kn(e, i - 1)),
          QDiv(QMul(Red(4 * Kn(e, i + p) - u, 4), prev[i + 1]), Kn(e, i + p) - Kn(e, i)))]
Levels(e, u) ==
  FoldLeft(LAMBDA s, p : Append(s, TLCEval(Level(e, u, s[p], p))),
           <<[i \in 1..(Len(e.kn) - 1) |-> IF Inside0(e, i - 1, u) THEN <<1, 1>> ELSE Q0]>>, Idx(e.p))
\* k-th derivative: lower the order k times with differences
DLevel(e, prev, p) ==
  [i \in 1..(Len(e.kn) - 1 - p) |->
     QSub(QDiv(QMul(<<p, 1>>, prev[i]), Kn(e, i - 1 + p) - Kn(e, i - 1)), QDiv(QMul(<<p, 1>>, prev[i + 1]), Kn(e, i + p) - Kn(e, i)))]
DBasis(e, lv, k) == FoldLeft(LAMBDA s, j : TLCEval(DLevel(e, s, e.p - k + j)), lv[e.p - k + 1], Idx(k))
BTol == 30
Curve(e, b, pts, l) == QSum(LAMBDA i : QMul(b[i], <<pts[i][l], 1>>), NB(e))
BIs(v, b, tol) == Len(v) = Len(b) /\ \A i \in 1..Len(b) : QIs(v[i], b[i], tol)
InRange(e, u) == 4 * e.kn[1] <= u /\ u <= 4 * e.kn[Len(e.kn)]
\* scaling of knots multiplies the rounding of derivatives
BStep(e, pts, h, r) ==
  LET u == h.u IN
  CASE h.k = "cp" -> LET ok == Len(h.pts) = NB(e) /\ Len(h.pts[1]) > 0 IN r.st = IF ok THEN "ok" ELSE "err"
    [] h.k = "bas" -> IF ~InRange(e, u) THEN r.st = "err" ELSE r.st = "ok" /\ BIs(r.v, Levels(e, u)[e.p + 1], BTol)
    [] h.k = "der" -> IF ~InRange(e, u) \/ h.up > e.p THEN r.st = "err"
                      ELSE LET lv == Levels(e, u) IN r.st = "ok" /\ Len(r.v) = h.up + 1 /\ \A k \in 0..h.up : BIs(r.v[k + 1], DBasis(e, lv, k), BTol * 10)
    [] h.k = "rec" -> r.st = "ok" /\ BIs(r.v, Levels(e, u)[e.p + 1], BTol)
    [] h.k = "pt" -> IF pts = <<>> \/ h.extra = 1 THEN r.st = "err"
                     ELSE LET b == Levels(e, u)[e.p + 1] IN r.st = "ok" /\ Len(r.v) = Len(pts[1]) /\ \A l \in 1..Len(r.v) : QIs(r.v[l], Curve(e, b, pts, l), BTol * 5)
    [] h.k = "cur" -> LET lv == Levels(e, u) IN
                      /\ r.st = "ok" /\ Len(r.v) = h.up + 1
                      /\ \A k \in 0..h.up : Len(r.v[k + 1]) = Len(pts[1]) /\
                           IF k > e.p THEN \A l \in 1..Len(pts[1]) : r.v[k + 1][l] = <<0, 0>>
                           ELSE LET b == TLCEval(DBasis(e, lv, k)) IN \A l \in 1..Len(pts[1]) : QIs(r.v[k + 1][l], Curve(e, b, pts, l), BTol * 50)
BspRun(e) == FoldLeft(LAMBDA acc, k : [ok |-> acc.ok /\ BStep(e, acc.pts, e.h[k], e.r[k]),
                                       pts |-> IF e.h[k].k = "cp" /\ e.r[k].st = "ok" THEN e.h[k].pts ELSE acc.pts],
                      [ok |-> TRUE, pts |-> <<>>], Idx(Len(e.h)))
Bsp(e) ==
  IF e.p < 1 \/ Len(e.kn) < 2 * (e.p + 1) THEN e.st = "err"
  ELSE /\ e.st = "ok" /\ e.nb = NB(e) /\ Len(e.r) = Len(e.h)
       /\ e.el = SelectSeq([i \in 1..(Len(e.kn) - 1) |-> <<i - 1, i>>], LAMBDA s : e.kn[s[2] + 1] # e.kn[s[1] + 1])
       /\ BspRun(e).ok

\* ---- least squares line
Fit(e) ==
  IF Len(e.x) # Len(e.y) THEN e.st = "err"
  ELSE LET n == Len(e.x)
           sx == SumSeq(e.x)
           sy == SumSeq(e.y)
           sxy == SumF(LAMBDA k : e.x[k] * e.y[k], n)
           sxx == SumF(LAMBDA k : e.x[k] * e.x[k], n)
           den == IF e.zero = 1 THEN sxx ELSE n * sxx - sx * sx
       IN /\ e.st = "ok"
          /\ IF den = 0 THEN e.c = <<0, 0>> /\ e.m = <<2000000001, 1>>
             ELSE IF e.zero = 1 THEN e.c = <<0, 0>> /\ Close(e.m, sxy, den, 5)
             ELSE Close(e.c, sxx * sy - sx * sxy, den, 5) /\ Close(e.m, n * sxy - sx * sy, den, 5)

\* ---- a (x - r) (x^2 - 2 m x + n)
IsSquare(d) == \E k \in 0..5 : k * k = d
Cub(e) ==
  IF e.a = 0 THEN e.st = "err"
  ELSE LET d == e.m * e.m - e.n IN
       /\ e.st = "ok"
       /\ IF d < 0 THEN Len(e.v) = 1 /\ Close(e.v[1], e.r, 1, 50)
          ELSE LET k == CHOOSE k \in 0..5 : k * k = d
                   s == SortSeq(<<e.r, e.m - k, e.m + k>>, LAMBDA x, y : x < y)
                   tol == IF Cardinality({s[1], s[2], s[3]}) = 3 THEN 50 ELSE 20000
               IN Len(e.v) = 3 /\ \A i \in 1..3 : Close(e.v[i], s[i], 1, tol)

Ok(e) ==
  CASE e.f = "quad" -> Quad(e)
    [] e.f = "qnear" -> QNear(e)
    [] e.f = "lag" -> Lag(e)
    [] e.f = "che" -> Che(e)
    [] e.f = "bsp" -> Bsp(e)
    [] e.f = "fit" -> Fit(e)
    [] e.f = "cub" -> Cub(e)
=============================================================================
