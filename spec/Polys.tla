------------------------------- MODULE Polys -------------------------------
(* Integer polynomials in two variables, p[i+1][j+1] being the coefficient   *)
(* of x^i y^j, with exact derivatives and fixed-point values.                *)
EXTENDS Base
Deg(p) == Len(p) - 1
PMake(n, f(_, _)) == [i \in 1..(n + 1) |-> [j \in 1..(n + 1) |-> f(i, j)]]
PDx(p) == PMake(Deg(p), LAMBDA i, j : IF i <= Deg(p) THEN i * p[i + 1][j] ELSE 0)
PDy(p) == PMake(Deg(p), LAMBDA i, j : IF j <= Deg(p) THEN j * p[i][j + 1] ELSE 0)
PAdd(p, q) == PMake(Deg(p), LAMBDA i, j : p[i][j] + q[i][j])
PScale(c, p) == PMake(Deg(p), LAMBDA i, j : c * p[i][j])
PZero(n) == PMake(n, LAMBDA i, j : 0)
\* powers x^0 .. x^n, eight decimals
Powers(x, n) == FoldLeft(LAMBDA s, k : Append(s, FMul8(s[Len(s)], x)), <<Unit8>>, Idx(n))
\* value in units of div * 1e-8 at coordinates given with eight decimals (monomials below 20 in magnitude)
PValue(p, x, y, div) ==
  LET px == Powers(x, Deg(p))
      py == Powers(y, Deg(p))
  IN SumF(LAMBDA i : SumF(LAMBDA j : IF p[i][j] = 0 THEN 0 ELSE LET m == FMul8(px[i], py[j]) IN p[i][j] * (m \div div) + (p[i][j] * (m % div)) \div div, Len(p)), Len(p))
=============================================================================
