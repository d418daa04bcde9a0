------------------------------ MODULE Special ------------------------------
(* Special functions through their defining relations.  Arguments lie on a   *)
(* lattice; observed values, ratios and scale-free tuples come as pairs      *)
(* <<floor, nine decimals>>, so every relation is decided with integers.     *)
EXTENDS Rational

\* sum of integer multiples of observed numbers below one in size
LinZero(cs, vs, tol) ==
  LET s(f(_)) == SumF(LAMBDA k : cs[k] * f(vs[k]), Len(cs))
      x == 1000 * s(LAMBDA v : v[1]) + s(LAMBDA v : v[2] \div 1000000)
      y == 1000 * x + s(LAMBDA v : (v[2] \div 1000) % 1000)
  IN /\ \A k \in 1..Len(vs) : Abs(vs[k][1]) <= 1
     /\ Abs(x) <= 1000000 /\ Abs(y) <= 2000000
     /\ Abs(1000 * y + s(LAMBDA v : v[2] % 1000)) <= tol + SumF(LAMBDA k : Abs(cs[k]), Len(cs))
\* sums of observed numbers of any size
Sum2(p, q) == <<p[1] + q[1], p[2] + q[2]>>
Zero2(p, tol) == LET c == p[1] + p[2] \div 1000000000 IN Tiny(<<c, p[2] % 1000000000>>, tol)
Less(p, q) == <<p[1] - q[1], p[2] - q[2]>>
Rel(cs, vs, tol) == Len(vs) = Len(cs) /\ LinZero(cs, vs, tol)
One(p, tol) == Close(p, 1, 1, tol)
Pi == <<3, 141592654>>
HalfPi == <<1, 570796327>>
TwoByPi == <<0, 636619772>>
Sgn(k) == IF k > 0 THEN 1 ELSE IF k < 0 THEN -1 ELSE 0
Even(k) == k % 2 = 0
Fact(n) == FoldLeft(LAMBDA s, k : s * k, 1, Idx(n))

\* ---- gamma, x = k/64
Gam(e) ==
  LET pole == e.k <= 0 /\ e.k % 64 = 0
  IN /\ ~pole => /\ Close(e.rec, e.k, 64, 4) /\ One(e.log, 4) /\ One(e.inc, 10)
                 /\ LET s == IF e.k > 0 \/ Even(e.k \div 64) THEN 1 ELSE -1 IN e.sg = <<s, s>>
     /\ (e.k > 0 \/ e.k % 32 # 0) => One(e.dup, 4)
     /\ e.k % 64 # 0 => One(e.ref, 4)
     /\ (e.k > 0 /\ e.k % 64 = 0 /\ e.k <= 13 * 64) => e.int = Fact((e.k \div 64) - 1)
LGam(e) == Tiny(e.rel, 2) /\ e.s = 1

\* ---- beta, arguments a/16 and b/16
Pole(k) == k <= 0 /\ k % 16 = 0
\* a is zero or a negative integer, yet the integral extends to it
Extends(a, b) == Pole(a) /\ b > 0 /\ b % 16 = 0 /\ a + b <= 0
Bet(e) ==
  LET a == e.a  b == e.b IN
  /\ (Pole(a) /\ Pole(b)) \/ e.sym[1] = e.sym[2]   \* a double pole has no sign
  /\ e.lsym[1] = e.lsym[2]
  /\ IF Pole(a) \/ Pole(b) THEN
       IF Extends(a, b) \/ Extends(b, a) THEN
         /\ e.cls \in {"pos", "neg", "one", "-one"} /\ One(e.ln, 20)
         /\ (Extends(a, b) /\ Extends(a + 16, b)) => Rel(<<-a, a + b>>, e.rec, 20)
         /\ (Extends(b, a) /\ Extends(b, a + 16)) => Rel(<<-a, a + b>>, e.rec, 20)
         /\ (e.cls \in {"pos", "one"}) = Even((IF a > 0 THEN a ELSE b) \div 16)
       ELSE e.cls = "inf" \/ (Pole(a) /\ Pole(b) /\ e.cls = "-inf")
     ELSE
       /\ Pole(a + b) => e.cls \in {"zero", "-zero"}
       /\ (a > 0 /\ b > 0) => e.cls \in {"pos", "one", "two"}
       /\ e.rec # <<>> => Rel(<<-a, a + b>>, e.rec, 40)
       /\ ~Pole(a + b) => /\ e.rec # <<>> /\ One(e.ln, 20)
                          /\ (a <= 1600 /\ b <= 1600 /\ a + b <= 2700) => One(e.gam, 20)
Bas(e) ==
  (~Pole(e.b) /\ e.ok = 1) =>
    /\ e.sym[1] = e.sym[2] /\ One(e.ln, 200)
    /\ Diff(e.rel, Fix(1000000 + RoundDiv(e.b * (16 - e.b), 512 * e.a), 1000000)) <= 1500

\* ---- error functions, x = k/64
TwoByRootPi == 112837917
Sq8(k) == FMul8((Abs(k) * 1562500), (Abs(k) * 1562500))
\* e^(x^2) erf(x) by the series of positive terms
Series(k) ==
  LET x == Abs(k) * 1562500
      d == 2 * Sq8(k)
      r == FoldLeft(LAMBDA s, n : LET t == FMul8(s[1], d) \div (2 * n + 1) IN <<t, s[2] + t>>, <<x, x>>, Idx(24))
  IN Sgn(k) * FMul8(r[2], TwoByRootPi)
Div7(a, b) == FoldLeft(LAMBDA s, n : <<(s[1] % b) * 10, s[2] * 10 + ((s[1] % b) * 10) \div b>>, <<a, a \div b>>, Idx(7))[2]
\* x sqrt(pi) e^(x^2) erfc(x) by its continued fraction, z = 1/(2x^2) in 1e-7
Fraction(k) ==
  LET z == Div7(2048, k * k)
      n == IF k >= 256 THEN 20 ELSE 90
      v == FoldLeft(LAMBDA s, i : 10000000 + Div7((n + 1 - i) * z, s), 10000000, Idx(n))
  IN Div7(10000000, v)
Erf(e) ==
  /\ Zero2(Less(Sum2(e.v, e.c), <<1, 0>>), 2) /\ Zero2(Less(Sum2(e.c, e.cm), <<2, 0>>), 2)
  /\ e.odd[1] = e.odd[2]
  /\ Abs(e.k) <= 96 => LET v == e.s[1] * 100000000 + e.s[2] \div 10 IN Abs(v - Series(e.k)) <= 60
  /\ e.k >= 96 => LET v == e.t[1] * 10000000 + e.t[2] \div 100 IN Abs(v - Fraction(e.k)) <= 40
Inv(e) == /\ Close(e.v, e.k, 1024, 2) /\ e.odd[1] = e.odd[2]
          /\ Close(e.c, 1024 - e.k, 1024, 2) /\ Close(e.cc, 1024 + e.k, 1024, 2)
Far(e) == /\ One(e.v, 200) /\ One(e.n, 200) /\ One(e.c, 200) /\ One(e.small, 4)

\* ---- Bessel functions far out: shifted sines, values times 10^4 sqrt(pi x / 2)
Hug(e) ==
  LET a == e.v[1]  b == e.v[2]
      J(n) == <<a, b, -a, -b>>[(n % 4) + 1]
      Y(n) == <<b, -a, -b, a>>[(n % 4) + 1]
      s == IF e.n % 2 = 0 THEN 1 ELSE -1
      Nigh(x, y) == Abs(x - y) <= 3
  IN /\ \A i \in 1..4 : Abs(e.v[i]) <= 10001
     /\ Abs(((a * a + b * b) \div 10000) - 10000) <= 6
     /\ Nigh(e.v[3], Y(0)) /\ Nigh(e.v[4], Y(1))
     /\ Nigh(e.w[1], J(e.n)) /\ Nigh(e.w[2], Y(e.n))
     /\ e.w[3] = s * e.w[1] /\ e.w[4] = s * e.w[2] /\ e.w[5] = s * e.w[1]
\* ---- Bessel functions of order n at x = k/16
Bes(e) ==
  LET n == e.n  k == e.k  j == IF Even(n) THEN 1 ELSE 4  y == IF Even(n) THEN 1 ELSE 3 IN
  /\ e.J # <<>> => Rel(<<k, -32 * n, k>>, e.J, 50)
  /\ e.Y # <<>> => Rel(<<k, -32 * n, k>>, e.Y, 50)
  /\ (e.J # <<>> /\ e.Y # <<>>) => Diff(e.wr, TwoByPi) <= 20
  /\ e.jn[2] = e.jn[j] /\ e.jn[3] = e.jn[j] /\ e.yn[2] = e.yn[y]
  /\ e.low = [i \in 1..6 |-> TRUE] /\ e.yneg = <<"nan", "nan", "nan">>
  /\ Rel(<<1, 1, 0>>, e.dd[1], 60) /\ Rel(<<1, 1, 0>>, e.dd[2], 60)
  /\ Rel(<<1, -1, 1>>, e.dd[3], 60) /\ Rel(<<1, -1, 1>>, e.dd[4], 60)
  /\ k <= 640 => One(e.sum, 20)
  /\ k <= 16 * 340 =>
       /\ e.I # <<>> => Rel(<<k, -32 * n, -k>>, e.I, 50)
       /\ e.K # <<>> => Rel(<<k, 32 * n, -k>>, e.K, 50)
       /\ (e.I # <<>> /\ e.K # <<>>) => One(e.wm, 20)
       /\ e.lowm = [i \in 1..6 |-> TRUE] /\ e.kneg = <<"nan", "nan", "nan">>
       /\ e.in[2] = e.in[IF Even(n) THEN 1 ELSE 3] /\ e.kn[1] = e.kn[2]
       /\ Rel(<<1, -1>>, e.dm[1], 60) /\ Rel(<<1, 1>>, e.dm[2], 60)
       /\ Rel(<<1, -1, 1>>, e.dm[3], 60) /\ Rel(<<1, 1, 1>>, e.dm[4], 60)
       /\ k <= 320 => One(e.si, 20)

\* ---- elliptic integrals: amplitude (pi/2) j/16, parameters m/16 and n/16
Ell(e) ==
  LET s == e.sn[1] * 1000 + e.sn[2] \div 1000000
      ms == e.m * s * s   \* in units of 1/16000000
      ns == e.n * s * s
      unit == 16000000
      bad == e.j < 0 \/ e.j > 16 \/ e.m < 0
  IN IF bad THEN e.F.st = "err" /\ e.E.st = "err" /\ e.P.st = "err"
     ELSE IF e.j = 0 THEN e.F.c \in {"zero", "-zero"} /\ e.E.c \in {"zero", "-zero"} /\ e.P.c \in {"zero", "-zero"}
     ELSE IF ms > unit + 200000 THEN e.F.st = "err" /\ e.E.st = "err" /\ e.P.st = "err"
     ELSE IF e.j = 16 /\ e.m = 16 THEN e.F.c = "inf" /\ One(e.E.v, 2) /\ e.P.c = "inf"
     ELSE IF Abs(ms - unit) <= 200000 THEN TRUE
     ELSE
       /\ e.F.st = "ok" /\ e.E.st = "ok" /\ e.P.st = "ok" /\ e.P0 = e.F
       /\ e.m = 0 => Diff(e.F.v, e.phi) <= 2 /\ Diff(e.E.v, e.phi) <= 2
       /\ e.m = 16 => Diff(e.E.v, e.sn) <= 2
       /\ (e.j <= 15 /\ ms < (unit \div 10) * 9) => /\ One(e.dF, 2000) /\ One(e.dE, 2000)
            /\ (Abs(ns - unit) > unit \div 10 => One(e.dP, 5000))
       /\ (Abs(ns - unit) > unit \div 50) => Tiny(e.pc, 200)
       /\ (e.j = 16 /\ e.n = 16) => e.P.c = "inf"
       /\ e.m \in 1..15 => Diff(e.leg, HalfPi) <= 4 /\ One(e.lan, 4)

\* ---- orthogonal polynomials at x = k/16
PAdd(p, q) == [i \in 1..Max2(Len(p), Len(q)) |-> QAdd(IF i <= Len(p) THEN p[i] ELSE Q0, IF i <= Len(q) THEN q[i] ELSE Q0)]
PScale(c, p) == [i \in 1..Len(p) |-> QMul(c, p[i])]
PX(p) == <<Q0>> \o p
PDer(p) == IF Len(p) = 1 THEN <<Q0>> ELSE [i \in 1..(Len(p) - 1) |-> QMul(<<i, 1>>, p[i + 1])]
PAt(p, x) == FoldLeft(LAMBDA s, i : QAdd(QMul(s, x), p[Len(p) + 1 - i]), Q0, Idx(Len(p)))
PZero(p) == \A i \in 1..Len(p) : p[i][1] = 0
\* next polynomial of a family from the last two; n is the order of b
PNext(f, n, a, b) ==
  IF f = "P" THEN PAdd(PScale(<<2 * n + 1, n + 1>>, PX(b)), PScale(Red(-n, n + 1), a))
  ELSE PAdd(PScale(<<2, 1>>, PX(b)), PScale(<<-1, 1>>, a))
P1(f) == IF f = "U" THEN <<Q0, <<2, 1>>>> ELSE <<Q0, <<1, 1>>>>
Family(f, n) == FoldLeft(LAMBDA s, k : <<s[2], PNext(f, k, s[1], s[2])>>, <<<<<<1, 1>>>>, P1(f)>>, Idx(n))[1]
Exact(e) ==
  LET x == Red(e.k, 16)
      all == <<"T", "U", "P">>
      ok(f, v) == LET p == TLCEval(Family(f, e.n))
                      d == TLCEval(PDer(p))
                      q(g, w) == LET r == PAt(g, x) IN Diff(w, Fix(r[1], r[2])) <= 4 + Abs(r[1] \div r[2]) \div 1000
                  IN q(p, v[1]) /\ q(d, v[2]) /\ q(PDer(d), v[3])
  IN \A i \in 1..3 : ok(all[i], SubSeq(e.v, 3 * i - 2, 3 * i))
Pol(e) ==
  LET n == e.n  k == e.k  q == 256 - k * k IN
  /\ Rel(<<8, -k, 8>>, e.t, 20) /\ Rel(<<8, -k, 8>>, e.u, 20)
  /\ Rel(<<16 * n, -(2 * n + 1) * k, 16 * (n + 1)>>, e.p, 20)
  /\ Rel(<<1, -n, 0>>, e.td, 20)
  /\ e.tt # <<>> => Rel(<<q, -16 * k, 256 * n * n>>, e.tt, 2000)
  /\ e.uu # <<>> => Rel(<<q, -48 * k, 256 * n * (n + 2)>>, e.uu, 2000)
  /\ e.pp # <<>> => Rel(<<q, -32 * k, 256 * n * (n + 1)>>, e.pp, 2000)
  /\ e.ud # <<>> => Rel(<<q, 256 * (n + 1), -16 * k>>, e.ud, 2000)
  /\ e.pd # <<>> => Rel(<<q, -256 * n, 16 * k * n>>, e.pd, 2000)
  /\ (n <= 6 /\ k % 8 = 0) => Exact(e)
  /\ Abs(k) = 16 => LET s == IF k < 0 /\ ~Even(n) THEN -1 ELSE 1
                        t == IF k < 0 THEN -s ELSE s
                    IN /\ Close(e.v[1], s, 1, 2) /\ Close(e.v[2], t * n * n, 1, 2 + n * n) /\ Close(e.v[3], s * ((n * n * (n * n - 1)) \div 3), 1, 100 + n * n * n)
                       /\ Close(e.v[4], s * (n + 1), 1, 2 + n) /\ Close(e.v[5], t * ((n * (n + 1) * (n + 2)) \div 3), 1, 100 + n * n * n)
                       /\ Close(e.v[7], s, 1, 2) /\ Close(e.v[8], t * ((n * (n + 1)) \div 2), 1, 2 + n * n) /\ Close(e.v[9], s * (((n - 1) * n * (n + 1) * (n + 2)) \div 8), 1, 100 + n * n * n)
Gau(e) ==
  /\ e.np = <<e.n + 1, e.n + 1>> /\ e.inc /\ e.sym /\ e.pos
  /\ \A k \in 0..(IF e.lob = 1 THEN 2 * e.n - 1 ELSE 2 * e.n + 1) : Close(e.mom[k + 1], IF Even(k) THEN 2 ELSE 0, k + 1, 2)
  /\ e.lob = 1 => Close(e.ends[1], -1, 1, 0) /\ Close(e.ends[2], 1, 1, 0)
Chp(e) == /\ e.np = <<e.n + 1, e.n + 1>> /\ e.inc
          /\ \A i \in 1..(e.n + 1) : Tiny(e.g[i], 2) /\ Close(e.l[i], IF Even(e.n + 1 - i) THEN 1 ELSE -1, 1, 2)

\* ---- elementary functions at x = k/16, y = j/16
IPow(n) == CASE n % 4 = 0 -> <<1, 0>> [] n % 4 = 1 -> <<0, 1>> [] n % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
Times(c, z) == <<c * z[1], c * z[2]>>
Box(k, a, b) == IF k < a \/ k > b THEN 0 ELSE IF k > a /\ k < b THEN 2 ELSE 1
Ele(e) ==
  LET k == e.k  j == e.j  b == 1 + e.b  w == Abs(e.n) % 9  l == e.logi  s == e.sm IN
  /\ e.sign = Sgn(k) /\ e.ramp = Max2(k, 0) /\ e.heav = 1 + Sgn(k) /\ e.neg = (IF Even(e.n) THEN 1 ELSE -1)
  /\ e.ip = IPow(e.n) /\ e.xp = Times(Pow(e.a, w), IPow(w)) /\ e.xq = Times(256 \div Pow(2, w), IPow(-w))
  /\ IF j = 0 THEN e.modc = "nan" ELSE e.mod = Sgn(k) * (Abs(k) % Abs(j))
  /\ LET t == Sgn(k) * (Abs(k) \div 16) IN e.split = <<t, k - 16 * t>>
  /\ e.isint[1] = (k % 16 = 0) /\ (k # 0 => e.isint[2] = (k < 0 /\ k % 16 = 0))
  /\ e.box.st = "ok" /\ e.box.v = Box(k, j, j + 16 * b) /\ e.badbox.st = "panic"
  /\ Zero2(Less(Sum2(l[1], l[2]), <<1, 0>>), 2) /\ l[4] = l[1]
  /\ Abs(l[3][1] * 100000000 + l[3][2] \div 10 - FMul8(l[1][1] * 100000000 + l[1][2] \div 10, l[2][1] * 100000000 + l[2][2] \div 10)) <= 4
  /\ k = 0 => Close(l[1], 1, 2, 1)
  /\ Zero2(Less(Less(s[1], s[2]), Fix(k, 16)), 3) /\ Zero2(Less(Sum2(s[3], s[4]), <<1, 0>>), 2)
  /\ Zero2(Less(s[5], s[6]), 20) /\ Zero2(Less(s[5], s[7]), 20)
  /\ Zero2(Less(e.ds[1], s[3]), 200) /\ Zero2(Less(e.ds[2], l[3]), 200)
  /\ (k < 0 /\ -(b * k) > 16 * 25) => Tiny(s[1], 1)
  /\ One(e.suq[1], 2) /\ \A i \in 2..7 : Tiny(e.suq[i], 2)
BitLen(k) == FoldLeft(LAMBDA s, i : IF Pow(2, i - 1) <= Abs(k) THEN i ELSE s, 0, Idx(10))
Flo(e) ==
  LET n == BitLen(e.k)  m == e.k * Pow(2, 16 - n) IN
  IF e.k = 0 THEN e.m = 0 /\ e.ex = 0 /\ e.cls \in {"zero", "-zero"}
  ELSE /\ e.m = m /\ e.ex = e.s + n /\ e.back[1] = e.back[2]
       /\ IF e.g + n > 1024 THEN e.cls = (IF e.k > 0 THEN "inf" ELSE "-inf")
          ELSE IF e.g >= -1074 THEN e.comp = <<m, e.g + n>>
          ELSE IF e.g + n <= -1076 THEN e.cls = (IF e.k > 0 THEN "zero" ELSE "-zero")
          ELSE TRUE
Fac(e) == IF e.n <= 22 THEN e.st = "ok" /\ e.q = Max2(e.n, 1) ELSE e.st = "panic"

\* ---- values at the ends of the domains and beyond
Z == {"zero", "-zero"}
Undef == {"nan"}
End(f, x, n) ==
  CASE f = "gammaneg" -> Undef [] f = "lngammaneg" -> {"inf"} [] f = "gammaover" -> {"inf"}
    [] f = "betaneg" -> {"inf"} [] f = "betazero" -> Z [] f = "lnbetazero" -> {"-inf"}
    [] f \in {"isint", "isneg"} /\ x \in {"nan", "inf", "-inf", "pos", "neg", "tiny"} -> {"no"}
    [] f = "isint" -> {"yes"}
    [] f = "isneg" -> IF x \in {"-one", "-two", "-big"} THEN {"yes"} ELSE IF x \in Z THEN {"yes", "no"} ELSE {"no"}
    [] x = "nan" -> Undef
    [] f \in {"betaa", "lnbetaa"} /\ x \in {"inf", "-inf"} -> Undef
    [] f = "gamma" -> CASE x = "inf" -> {"inf"} [] x = "-inf" -> Undef [] x = "zero" -> {"inf"} [] x = "-zero" -> {"-inf"} [] x \in {"one", "two"} -> {"one"} [] x \in {"-one", "-two"} -> Undef [] x = "big" -> {"inf"} [] x = "tiny" -> {"pos"} [] x = "neg" -> {"pos"} [] x = "pos" -> {"pos"} [] OTHER -> {}
    [] f = "lngamma" -> CASE x = "inf" -> {"inf"} [] x = "-inf" -> {"-inf"} [] x \in Z \cup {"-one", "-two"} -> {"inf"} [] x \in {"one", "two"} -> Z [] x \in {"big", "tiny"} -> {"pos"} [] OTHER -> {}
    [] f = "erf" -> CASE x \in {"inf", "big"} -> {"one"} [] x \in {"-inf", "-big"} -> {"-one"} [] x \in Z -> Z [] x = "tiny" -> {"pos"} [] OTHER -> {}
    [] f = "erfc" -> CASE x \in {"inf", "big"} -> {"zero"} [] x \in {"-inf", "-big"} -> {"two"} [] x \in Z \cup {"tiny"} -> {"one"} [] OTHER -> {}
    [] f = "erfinv" -> CASE x = "one" -> {"inf"} [] x = "-one" -> {"-inf"} [] x \in Z -> Z [] x = "tiny" -> {"pos"} [] OTHER -> Undef
    [] f = "erfcinv" -> CASE x \in Z -> {"inf"} [] x = "two" -> {"-inf"} [] x = "one" -> Z [] x = "pos" -> {"neg"} [] x = "tiny" -> {} [] OTHER -> Undef
    [] f \in {"j0", "j1", "jn"} /\ x \in {"inf", "-inf"} -> Z
    [] f \in {"j0", "i0"} /\ x \in Z -> {"one"}
    [] f \in {"jn", "in"} /\ x \in Z -> IF n = 0 THEN {"one"} ELSE Z
    [] f \in {"j1", "i1"} /\ x \in Z -> Z
    [] f \in {"y0", "y1", "yn", "k0", "k1", "kn"} /\ x \in {"neg", "-one", "-two", "-big", "-inf"} -> Undef
    [] f \in {"y0", "y1", "yn"} /\ x = "inf" -> Z
    [] f \in {"y0", "y1"} /\ x \in Z -> {"-inf"}
    [] f = "yn" /\ x \in Z -> IF n < 0 /\ ~Even(n) THEN {"inf"} ELSE {"-inf"}
    [] f \in {"k0", "k1", "kn"} /\ x \in Z -> {"inf"}
    [] f \in {"k0", "k1", "kn"} /\ x \in {"inf", "big"} -> Z
    [] f = "modx" /\ x \in {"inf", "-inf"} -> Undef
    [] f = "mody" -> CASE x \in Z -> Undef [] x \in {"inf", "-inf", "two", "-two", "pos", "neg", "big", "-big"} -> {"one"} [] x \in {"one", "-one"} -> Z [] OTHER -> {}
    [] OTHER -> {}
Sp(e) == LET s == End(e.fn, e.x, e.n) IN s = {} \/ e.v \in s

Ok(e) ==
  IF e.f = "fac" THEN Fac(e) ELSE
  /\ e.st = "ok"
  /\ CASE e.f = "gam" -> Gam(e) [] e.f = "lgam" -> LGam(e) [] e.f = "bet" -> Bet(e) [] e.f = "bas" -> Bas(e)
       [] e.f = "erf" -> Erf(e) [] e.f = "inv" -> Inv(e) [] e.f = "tail" -> Far(e) [] e.f = "bes" -> Bes(e) [] e.f = "hug" -> Hug(e)
       [] e.f = "ell" -> Ell(e) [] e.f = "pol" -> Pol(e) [] e.f = "gau" -> Gau(e) [] e.f = "chp" -> Chp(e)
       [] e.f = "ele" -> Ele(e) [] e.f = "flo" -> Flo(e) [] e.f = "sp" -> Sp(e)
=============================================================================
