------------------------------ MODULE Invariants ------------------------------
(* Stress and strain invariants, octahedral coordinates, spectral form,       *)
(* isotropic linear elasticity and the derivatives of the invariants, all in  *)
(* exact integers: every irrational factor is moved into the logged scale.    *)
EXTENDS TensorAlg
Iden == <<1, 0, 0, 0, 1, 0, 0, 0, 1>>
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
\* 27 J3, 6 J2, 9 dJ3, and 18 times the second derivative of J3
J3of(a) == Det(TLCEval(Dev3(a)))
J2of(a) == LET d == TLCEval(Dev3(a)) IN Dd22(d, TLCEval(Transp(d))) \div 3
Grad3(a) == LET d == TLCEval(Dev3(a))  s == TLCEval(Dot22(d, d))  b == J2of(a) IN M2(LAMBDA i, j : I2(s, i, j) - (Kd(i, j) * b))
Hess3(a) == LET d == TLCEval(Dev3(a)) IN
  M4(LAMBDA i, j, k, l : (3 * ((I2(d, i, k) * Kd(j, l)) + (I2(d, i, l) * Kd(j, k)) + (I2(d, j, l) * Kd(i, k)) + (I2(d, j, k) * Kd(i, l))))
                         - (4 * Kd(k, l) * I2(d, i, j)) - (4 * Kd(i, j) * I2(d, k, l)))
P6 == Six("symdev")

\* the two stress invariants of every pair, and the Lode invariant through its square
Lode(a, b, x) == IF b <= 0 THEN x = <<>> ELSE x = <<Sign(a), 2 * a * a>>
InvOk(e) == LET o == TLCEval(Own(e.a))  t == o[1]  d == o[4] IN
  /\ e.o1 = <<t, t, t, t, t>>
  \* radius^2, q^2 = 3/2 radius^2, deviatoric strain^2 = 2/3 radius^2
  /\ e.o2 = <<d, d, d, 2 * d, d>>
  /\ ~e.neg
  /\ Lode(o[10], o[9], e.lo) /\ e.l2 = e.lo
BackOk(e) == LET o == TLCEval(Own(e.a)) IN
  IF o[9] = 0 THEN e.o = <<>>
  ELSE e.o = <<o[1], o[4], o[10]>> /\ e.off = <<0, 0, 0>> /\ e.srt /\ e.rp = e.ra

\* 4 sin^2 of multiples of pi/12 where rational
Sin4(k) == LET m == Abs(k) % 12 IN CASE m = 0 -> 0 [] m \in {2, 10} -> 1 [] m \in {3, 9} -> 2 [] m \in {4, 8} -> 3 [] m = 6 -> 4 [] OTHER -> -1
SinSg(k) == IF Abs(k) % 12 = 0 THEN 0 ELSE IF k > 0 THEN 1 ELSE -1
CosSg(k) == IF Abs(k) = 6 THEN 0 ELSE IF Abs(k) < 6 THEN 1 ELSE -1
\* sin(k pi/4): sign and twice its square
Oct4(k) == LET m == ((k % 8) + 8) % 8 IN <<IF m \in 1..3 THEN 1 ELSE IF m \in 5..7 THEN -1 ELSE 0, IF m \in {0, 4} THEN 0 ELSE IF m \in {2, 6} THEN 2 ELSE 1>>
OctOk(e) ==
  IF Abs(e.k) > (IF e.by = "alpha" THEN 12 ELSE 8) THEN e.st = "err"
  ELSE /\ e.st = "ok" /\ e.rp = 1 + e.two /\ e.tr = e.d /\ e.rad = e.r * e.r
       /\ IF e.r = 0 THEN e.lo = <<>> /\ e.sg = <<0, 0>>
          ELSE IF e.by = "alpha" THEN /\ e.ls = <<-Oct4(e.k)[1], Oct4(e.k)[2]>> /\ e.sg = <<SinSg(e.k), CosSg(e.k)>>
                 /\ (Sin4(e.k) >= 0 => e.sq = <<e.r * e.r * Sin4(e.k), e.r * e.r * (4 - Sin4(e.k))>>)
          ELSE /\ e.lo = <<e.k>> /\ e.sg = <<1, IF e.k = 8 THEN 0 ELSE 1>>
               /\ (e.k \in {-8, 0, 8} => e.sq[1] = e.r * e.r * (CASE e.k = 8 -> 4 [] e.k = 0 -> 3 [] OTHER -> 1))

SpecOk(e) ==
  IF e.ra # 1 + e.two THEN e.st = "err"
  ELSE LET o == TLCEval(Own(e.a))  q == TLCEval(Dot22(e.a, e.a)) IN
    /\ e.st = "ok" /\ e.o = e.a /\ e.one = Iden /\ e.sq = q /\ e.cu = Dot22(q, e.a)
    /\ e.pp = Iden /\ e.errs = <<TRUE, TRUE>>
    /\ e.l = <<o[1], o[3], o[2]>> /\ e.oct = <<o[1], o[4], o[10]>>
    /\ (e.two = 1 => e.zz = e.a[9])

\* elasticity: al/2 times the symmetriser plus be times the dyad of identities, over a common scale
Iso4(rp, al, be) == M4(LAMBDA i, j, k, l : IF rp = 2 /\ ~(InPlane(i, j) /\ InPlane(k, l)) THEN 0
                        ELSE (al * ((Kd(i, k) * Kd(j, l)) + (Kd(i, l) * Kd(j, k)))) + (be * Kd(i, j) * Kd(k, l)))
Plane4(al, be) == M4(LAMBDA i, j, k, l : IF i = 2 \/ j = 2 \/ k = 2 \/ l = 2 THEN 0
                        ELSE (al * ((Kd(i, k) * Kd(j, l)) + (Kd(i, l) * Kd(j, k)))) + (be * Kd(i, j) * Kd(k, l)))
Modulus(e, rp) ==
  IF e.k = "bs" THEN
    IF e.ps0 = 1 THEN Plane4(2 * e.sh * ((3 * e.bk) + (4 * e.sh)), 4 * e.sh * ((3 * e.bk) - (2 * e.sh)))
    ELSE Iso4(rp, 6 * e.sh, 2 * ((3 * e.bk) - (2 * e.sh)))
  ELSE IF e.ps0 = 1 THEN Plane4(e.en * e.nd * (e.nd - e.nn), 2 * e.en * e.nd * e.nn)
    ELSE Iso4(rp, e.en * e.nd * (e.nd - (2 * e.nn)), 2 * e.en * e.nd * e.nn)
Compliance(e, rp) == IF e.k = "bs" THEN Iso4(rp, 9 * e.bk, (4 * e.sh) - (6 * e.bk)) ELSE Iso4(rp, e.nd + e.nn, -(2 * e.nn))
Constants4(e) == IF e.k = "bs" THEN <<e.bk, e.sh, 9 * e.bk * e.sh, (3 * e.bk) - (2 * e.sh)>> ELSE <<e.en * e.nd, e.en * e.nd, e.en, e.nn>>
ElaOk(e) == LET rp == IF e.two = 1 \/ e.ps0 = 1 THEN 2 ELSE 1  m == TLCEval(Modulus(e, rp))  t == e.a[1] + e.a[5] IN
  /\ e.st = "ok" /\ e.rp = rp /\ e.mod = m /\ e.ks = Constants4(e)
  /\ e.sig = IF e.ra = rp THEN <<Dd42(m, e.a)>> ELSE <<>>
  /\ e.comp = IF e.ps0 = 1 \/ e.rc # rp THEN <<>> ELSE Compliance(e, rp)
  /\ IF e.ps0 = 0 THEN e.ez = <<>>
     ELSE Len(e.ez) = 1 /\ (e.ra = rp => e.ez[1] = IF e.k = "bs" THEN -(((3 * e.bk) - (2 * e.sh)) * t) ELSE -((e.nd + e.nn) * e.nn * t))

Second == {"2jj2", "2jj3", "2sigt", "2q", "2lode", "inv", "invs", "sq", "sqs"}
DeriValid(e) ==
  CASE e.w \in {"norm", "sigs", "p"} -> TRUE
    [] e.w \in {"inv", "sq"} -> e.rc = 0
    [] e.w \in Second -> e.rc = 1 /\ e.ra # 0
    [] OTHER -> e.ra # 0
Quad4(a, b) == Sum4(Sum4(Od(a, b), Ud(a, b)), Sum4(Od(b, a), Ud(b, a)))
DeriOk(e) ==
  IF ~DeriValid(e) THEN e.st = "panic"
  ELSE LET a == e.a  d == TLCEval(Dev3(a))  b == J2of(a)  c == Det(d) IN
   /\ e.st = "ok"
   /\ CASE e.w \in {"sigs", "p"} -> e.o = Iden
        [] e.w = "norm" -> IF Dd22(a, a) = 0 THEN e.r = <<>> ELSE e.r = <<Dd22(a, a)>> /\ e.o = a
        [] e.w = "jj2" -> e.o = d
        [] e.w = "jj3" -> e.o = Grad3(a) /\ e.s = d
        [] e.w = "2jj2" -> e.o = P6
        [] e.w = "2jj3" -> e.o = Hess3(a)
        [] e.w = "inv" -> e.o = Scal(-1, Od(a, TLCEval(Transp(a))))
        [] e.w = "invs" -> e.o = Scal(-1, Sum4(Od(a, a), Ud(a, a)))
        [] e.w = "sq" -> e.o = Sum4(Od(a, Iden), Od(Iden, TLCEval(Transp(a)))) /\ e.s = Iden
        [] e.w = "sqs" -> e.o = Quad4(a, Iden) /\ e.s = Iden
        [] OTHER -> IF b = 0 THEN e.r = <<>> ELSE e.r = <<b>> /\
           CASE e.w \in {"sigt", "q"} -> e.o = d
             [] e.w = "lode" -> e.o = Lin(b, Grad3(a), -c, d)
             [] e.w \in {"2sigt", "2q"} -> e.o = Lin(b, P6, -2, Dy22(d, d))
             [] e.w = "2lode" -> LET g == TLCEval(Grad3(a))  h == TLCEval(Hess3(a))  p == TLCEval(P6) IN
                  e.o = M4(LAMBDA i, j, k, l : (2 * b * b * I4(h, i, j, k, l)) - (12 * b * ((I2(g, i, j) * I2(d, k, l)) + (I2(d, i, j) * I2(g, k, l))))
                                               - (2 * c * b * I4(p, i, j, k, l)) + (20 * c * I2(d, i, j) * I2(d, k, l)))
             [] OTHER -> FALSE
Ok(e) == CASE e.f = "inv" -> e.st = "ok" /\ InvOk(e)
           [] e.f = "back" -> e.st = "ok" /\ BackOk(e)
           [] e.f = "oct" -> OctOk(e)
           [] e.f = "spec" -> SpecOk(e)
           [] e.f = "ela" -> ElaOk(e)
           [] e.f = "deri" -> DeriOk(e)
           [] OTHER -> FALSE
=============================================================================
