------------------------------ MODULE TensorOps ------------------------------
(* Tensor operations in index notation on standard components, whatever the   *)
(* storage form of the operands; the forms only decide which calls are valid. *)
EXTENDS TensorAlg
\* calls with forms that do not match end in a panic
Valid(e) ==
  CASE e.f \in {"add2"} -> e.ra = e.rb /\ e.rc = e.ra
    [] e.f = "add3" -> e.rh = e.ri /\ e.rc = e.rh
    [] e.f \in {"add4", "dd44", "dd44u"} -> e.rd = e.rg /\ e.rc = e.rd
    [] e.f = "dd22" -> e.ra = e.rb
    [] e.f \in {"dot22", "od", "ud"} -> e.ra = e.rb /\ e.rc = 0
    [] e.f = "qsd" -> e.ra = e.rb /\ e.rc = 1
    [] e.f = "ssd" -> e.rc = 1
    [] e.f \in {"dy22", "dy22u"} -> e.ra = e.rb /\ e.rc = e.ra
    [] e.f \in {"dd42", "dd42u", "dd24"} -> e.ra = e.rd /\ e.rc = e.rd
    [] e.f = "dd242" -> e.ra = e.rd /\ e.rb = e.rd
    [] e.f = "rank" -> e.ra = e.rd /\ e.rb = e.rd /\ e.rc = e.rd
    [] e.f = "h1" -> e.ca = 1 /\ e.rc = e.rh
    [] e.f = "h2" -> e.ca = 0 /\ e.ra = e.rh
    [] e.f \in {"tra", "sq", "dev", "dec", "inv"} -> e.rc = e.ra
    [] OTHER -> TRUE

\* identity on what the form holds
One4(rp) == M4(LAMBDA i, j, k, l : IF rp = 0 THEN 2 * Kd(i, k) * Kd(j, l)
                 ELSE IF rp = 2 /\ ~(InPlane(i, j) /\ InPlane(k, l)) THEN 0 ELSE (Kd(i, k) * Kd(j, l)) + (Kd(i, l) * Kd(j, k)))
Inverts(e) ==
  LET one == TLCEval(One4(e.rd))
      tot == FoldLeft(LAMBDA s, x : s + Abs(x), 0, e.d)
      big == \E n \in 1..81 : Abs(e.o[n]) > 4000000
  IN big \/ (e.sd # 0 /\ LET p == TLCEval(Dd44(e.d, e.o)) IN \A n \in 1..81 : Abs(p[n] - (50000 * one[n])) <= tot + 2)

Ok(e) ==
  IF ~Valid(e) THEN e.st = "panic"
  ELSE CASE e.f = "dy11" ->
      LET p == Dy11(e.u, e.v) IN IF Fits2(e.rc, p) THEN e.st = "ok" /\ e.o = Scal(e.al, p) ELSE e.st = "err"
    [] e.f = "inv4" -> IF e.rc # e.rd \/ \A n \in 1..81 : e.d[n] = 0 THEN e.st = "err"
                       ELSE (e.st = "err" /\ e.c < 20) \/ (e.st = "ok" /\ Inverts(e))
    [] OTHER -> e.st = "ok" /\
      CASE e.f = "add2" -> e.o = Lin(e.al, e.a, e.be, e.b)
        [] e.f = "add3" -> e.o = Lin(e.al, e.h, e.be, e.i)
        [] e.f = "add4" -> e.o = Lin(e.al, e.d, e.be, e.g)
        [] e.f = "dd22" -> e.o = <<Dd22(e.a, e.b)>>
        [] e.f = "dot22" -> e.o = Dot22(e.a, e.b)
        [] e.f = "dot21" -> e.o = M1(LAMBDA i : e.al * S1(LAMBDA j : I2(e.a, i, j) * V(e.u, j)))
        [] e.f = "dot12" -> e.o = M1(LAMBDA j : e.al * S1(LAMBDA i : V(e.u, i) * I2(e.a, i, j)))
        [] e.f = "cross" -> e.o = Cross(e.u, e.v) /\ e.n = <<0, 0, 0>>
        [] e.f = "dot11" -> e.o = <<S1(LAMBDA i : V(e.u, i) * V(e.v, i))>> /\ e.w = e.u
        [] e.f = "dy22" -> e.o = Scal(e.al, Dy22(e.a, e.b))
        [] e.f = "dy22u" -> e.o = Lin(e.al, Dy22(e.a, e.b), 1, e.z)
        [] e.f = "dd42" -> e.o = Scal(e.al, Dd42(e.d, e.a))
        [] e.f = "dd42u" -> e.o = Lin(e.al, Dd42(e.d, e.a), e.be, e.z)
        [] e.f = "dd24" -> e.o = Scal(e.al, Dd24(e.a, e.d))
        [] e.f = "dd242" -> e.o = <<Dd22(e.a, TLCEval(Dd42(e.d, e.b)))>>
        [] e.f = "rank" -> LET p == TLCEval(Dd42(e.d, e.a))  q == TLCEval(Dd24(e.b, e.d)) IN e.o = Lin(e.al, e.d, e.be, Dy22(p, q))
        [] e.f = "dd44" -> e.o = Scal(e.al, Dd44(e.d, e.g))
        [] e.f = "dd44u" -> e.o = Lin(e.al, Dd44(e.d, e.g), e.be, e.z)
        [] e.f = "od" -> e.o = Scal(e.al, Od(e.a, e.b))
        [] e.f = "ud" -> e.o = Scal(e.al, Ud(e.a, e.b))
        [] e.f = "ssd" -> e.o = Scal(e.al, Sum4(Od(e.a, e.a), Ud(e.a, e.a)))
        [] e.f = "qsd" -> e.o = Scal(e.al, Sum4(Sum4(Od(e.a, e.b), Ud(e.a, e.b)), Sum4(Od(e.b, e.a), Ud(e.b, e.a))))
        [] e.f = "h1" -> e.o = M2(LAMBDA i, j : e.al * S1(LAMBDA k : I3(e.h, i, j, k) * V(e.u, k)))
        [] e.f = "h2" -> e.o = M1(LAMBDA i : e.al * S2(LAMBDA j, k : I3(e.h, i, j, k) * I2(e.a, j, k)))
        [] e.f = "own" -> e.o = Own(e.a) /\ e.w = Omega2(e.a) /\ ~e.neg
        [] e.f = "tra" -> e.o = Transp(e.a)
        [] e.f = "sq" -> e.o = Dot22(e.a, e.a)
        [] e.f = "dev" -> e.o = Dev3(e.a)
        [] e.f = "dec" -> e.o = M2(LAMBDA i, j : I2(e.a, i, j) + I2(e.a, j, i)) /\ e.w = M2(LAMBDA i, j : I2(e.a, i, j) - I2(e.a, j, i))
        [] e.f = "inv" -> e.det = Det(e.a) /\ (e.det # 0 => e.o = Adj(e.a)) /\ (e.det = 0 => e.o = e.z)
        [] e.f = "const" -> LET s == TLCEval(Six(e.c)) IN e.o = s /\ e.w = Table(s) /\ e.rp = IF e.red = 1 /\ e.c \in Reducible THEN 1 ELSE 0
        [] e.f = "setpp" -> LET s == TLCEval(Six("symdev"))
                            IN e.o = M4(LAMBDA i, j, k, l : IF e.rc = 2 /\ ~(InPlane(i, j) /\ InPlane(k, l)) THEN 0 ELSE I4(s, i, j, k, l))
        [] OTHER -> FALSE
=============================================================================
