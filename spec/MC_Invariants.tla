--------------------------- MODULE MC_Invariants ---------------------------
(* The derivatives are those of the invariants: exact differences of the      *)
(* polynomials in every direction; bounds and special values.                 *)
EXTENDS Invariants
CONSTANTS K
VARIABLES xs, dir, n
Sym(v) == <<v[1], v[4], v[5], v[4], v[2], v[6], v[5], v[6], v[3]>>
Init == xs \in {v \in [1..6 -> -2..2] : \A k \in (K + 1)..6 : v[k] \in {((k * k) % 3) - 1}} /\ dir = 0 /\ n = 0
Next == n = 0 /\ n' = 1 /\ xs' = xs /\ dir' \in 1..9
Unit(q) == LET k == (q - 1) \div 3  l == (q - 1) % 3 IN M2(LAMBDA i, j : (Kd(i, k) * Kd(j, l)) + (Kd(i, l) * Kd(j, k)))
\* x + 2E and x - 2E: differences of 6 J2 and 27 J3 against the gradients
Grads(a, u) == LET p == TLCEval(Lin(1, a, 1, u))  m == TLCEval(Lin(1, a, -1, u)) IN
  \* 6 J2 gradient = 2 Dev3;  27 J3 gradient = 3 Grad3; the cubic remainder is J3 of the direction
  /\ J2of(p) - J2of(m) = 2 * 2 * Dd22(Dev3(a), u)
  /\ J3of(p) - J3of(m) = (2 * 3 * Dd22(Grad3(a), u)) + (2 * J3of(u))
  \* gradient of the gradient: 18 H : u = Grad3(p) - Grad3(m)
  /\ Lin(1, Grad3(p), -1, Grad3(m)) = Dd42(TLCEval(Hess3(a)), u)
  /\ Lin(1, Dev3(p), -1, Dev3(m)) = Dd42(TLCEval(P6), u)
Major(a) == LET h == TLCEval(Hess3(a)) IN h = M4(LAMBDA i, j, k, l : I4(h, k, l, i, j))
\* the Lode invariant lies in [-1, 1]: its gradient is orthogonal to the deviator and to the identity
Bound(a) == LET b == J2of(a)  c == J3of(a) IN b >= 0 /\ 2 * c * c <= b * b * b
Homog(a) == LET d == TLCEval(Dev3(a))  g == TLCEval(Grad3(a))  b == J2of(a)  c == J3of(a)  l == TLCEval(Lin(b, g, -c, d))
            IN Dd22(l, d) = 0 /\ Tr(l) = 0 /\ Tr(g) = 0 /\ Dd22(g, d) = 3 * c
\* elasticity: the rigidity times the compliance is the identity on symmetric tensors
Ela(a) == \A en \in {1, 7}, nd \in {3, 4, 10}, nn \in {-1, 0, 1} : \A rp \in {1, 2} :
  LET e == [k |-> "yp", ps0 |-> 0, en |-> en, nd |-> nd, nn |-> nn]
      x == IF rp = 2 THEN M2(LAMBDA i, j : IF InPlane(i, j) THEN I2(a, i, j) ELSE 0) ELSE a
  IN Dd42(TLCEval(Compliance(e, rp)), TLCEval(Dd42(TLCEval(Modulus(e, rp)), x))) = Scal(4 * en * nd * (nd + nn) * (nd - (2 * nn)), x)
\* plane stress: the plane-strain law with the out-of-plane strain that leaves no normal stress
Plane(a) == \A bk \in {1, 5}, sh \in {2, 3} :
  LET e == [k |-> "bs", ps0 |-> 1, bk |-> bk, sh |-> sh]  s == (3 * bk) + (4 * sh)
      t == a[1] + a[5]
      x == TLCEval(M2(LAMBDA i, j : IF i = 2 /\ j = 2 THEN -(((3 * bk) - (2 * sh)) * t) ELSE IF i = 2 \/ j = 2 THEN 0 ELSE s * I2(a, i, j)))
  IN Dd42(TLCEval(Modulus([e EXCEPT !.ps0 = 0], 2)), x) = Scal(3, Dd42(TLCEval(Modulus(e, 2)), TLCEval(M2(LAMBDA i, j : IF i = 2 \/ j = 2 THEN 0 ELSE I2(a, i, j)))))
One == n = 0 => \A a \in {Sym(xs)} : Bound(a) /\ Homog(a) /\ Major(a) /\ Ela(a) /\ Plane(a)
Two == n = 1 => \A a \in {Sym(xs)}, u \in {Unit(dir)} : Grads(a, u)
=============================================================================
