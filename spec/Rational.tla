------------------------------ MODULE Rational ------------------------------
(* Rational numbers and the comparison of observed numbers with them.         *)
EXTENDS Base

\* ---- observed fixed-point numbers against rationals
Fix(num, den) ==
  LET r1 == (num % den) * 1000
      r2 == (r1 % den) * 1000
      r3 == (r2 % den) * 1000
  IN <<num \div den, (r1 \div den) * 1000000 + (r2 \div den) * 1000 + r3 \div den>>
Diff(p, q) == IF Abs(p[1] - q[1]) > 1 THEN 2000000000 ELSE Abs((p[1] - q[1]) * 1000000000 + (p[2] - q[2]))
Close(p, num, den, tol) == Diff(p, Fix(num, den)) <= tol
Tiny(p, tol) == Diff(p, <<0, 0>>) <= tol
Lt3(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
Le3(a, b) == a = b \/ Lt3(a, b)

\* ---- rationals <<num, den>>, den > 0, reduced
Gcd(a, b) == FoldLeft(LAMBDA s, k : IF s[2] = 0 THEN s ELSE <<s[2], s[1] % s[2]>>, <<a, b>>, Idx(40))[1]
Red(n, d) == LET s == IF d < 0 THEN -1 ELSE 1
                 g == Gcd(Abs(n), Abs(d))
             IN <<(s * n) \div g, (s * d) \div g>>
QAdd(a, b) == Red(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
QSub(a, b) == Red(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
QMul(a, b) == Red(a[1] * b[1], a[2] * b[2])
Q0 == <<0, 1>>
QSum(f(_), n) == FoldLeft(LAMBDA s, k : QAdd(s, f(k)), Q0, Idx(n))
QIs(p, q, tol) == Close(p, q[1], q[2], tol)
=============================================================================
