------------------------------ MODULE TensorAlg ------------------------------
(* Tensor algebra in index notation on standard components.                   *)
EXTENDS Base, SequencesExt, TLC
I2(x, i, j) == x[(3 * i) + j + 1]
I3(x, i, j, k) == x[(9 * i) + (3 * j) + k + 1]
I4(x, i, j, k, l) == x[(27 * i) + (9 * j) + (3 * k) + l + 1]
V(x, i) == x[i + 1]
M1(F(_)) == <<F(0), F(1), F(2)>>
M2(F(_, _)) == TLCEval([n \in 1..9 |-> F((n - 1) \div 3, (n - 1) % 3)])
M3(F(_, _, _)) == TLCEval([n \in 1..27 |-> F((n - 1) \div 9, ((n - 1) \div 3) % 3, (n - 1) % 3)])
M4(F(_, _, _, _)) == TLCEval([n \in 1..81 |-> F((n - 1) \div 27, ((n - 1) \div 9) % 3, ((n - 1) \div 3) % 3, (n - 1) % 3)])
S1(F(_)) == F(0) + F(1) + F(2)
S2(F(_, _)) == S1(LAMBDA i : S1(LAMBDA j : F(i, j)))
Kd(i, j) == IF i = j THEN 1 ELSE 0

Lin(al, x, be, y) == LET p == TLCEval(x)  q == TLCEval(y) IN TLCEval([n \in 1..Len(p) |-> (al * p[n]) + (be * q[n])])
Tr(a) == a[1] + a[5] + a[9]
Transp(a) == M2(LAMBDA i, j : I2(a, j, i))
Dot22(a, b) == M2(LAMBDA i, j : S1(LAMBDA k : I2(a, i, k) * I2(b, k, j)))
Dd22(a, b) == S2(LAMBDA i, j : I2(a, i, j) * I2(b, i, j))
Det(a) == S1(LAMBDA i : I2(a, 0, i) * ((I2(a, 1, (i + 1) % 3) * I2(a, 2, (i + 2) % 3)) - (I2(a, 1, (i + 2) % 3) * I2(a, 2, (i + 1) % 3))))
\* three times the deviator
Dev3(a) == M2(LAMBDA i, j : (3 * I2(a, i, j)) - (Kd(i, j) * Tr(a)))
Cof(a, i, j) == (I2(a, (i + 1) % 3, (j + 1) % 3) * I2(a, (i + 2) % 3, (j + 2) % 3)) - (I2(a, (i + 1) % 3, (j + 2) % 3) * I2(a, (i + 2) % 3, (j + 1) % 3))
Adj(a) == M2(LAMBDA i, j : Cof(a, j, i))
Dd42(d, a) == M2(LAMBDA i, j : S2(LAMBDA k, l : I4(d, i, j, k, l) * I2(a, k, l)))
Dd24(a, d) == M2(LAMBDA k, l : S2(LAMBDA i, j : I2(a, i, j) * I4(d, i, j, k, l)))
Dy22(a, b) == M4(LAMBDA i, j, k, l : I2(a, i, j) * I2(b, k, l))
Dd44(c, d) == M4(LAMBDA i, j, k, l : S2(LAMBDA p, q : I4(c, i, j, p, q) * I4(d, p, q, k, l)))
Od(a, b) == M4(LAMBDA i, j, k, l : I2(a, i, k) * I2(b, j, l))
Ud(a, b) == M4(LAMBDA i, j, k, l : I2(a, i, l) * I2(b, j, k))
Sum4(x, y) == Lin(1, x, 1, y)
Scal(al, x) == LET p == TLCEval(x) IN TLCEval([n \in 1..Len(p) |-> al * p[n]])
Dy11(u, v) == M2(LAMBDA i, j : V(u, i) * V(v, j))
Cross(u, v) == M1(LAMBDA i : (V(u, (i + 1) % 3) * V(v, (i + 2) % 3)) - (V(u, (i + 2) % 3) * V(v, (i + 1) % 3)))

\* six times the constant tensors
Six(c) == CASE c = "ii" -> M4(LAMBDA i, j, k, l : 6 * Kd(i, k) * Kd(j, l))
            [] c = "tt" -> M4(LAMBDA i, j, k, l : 6 * Kd(i, l) * Kd(j, k))
            [] c = "jj" -> M4(LAMBDA i, j, k, l : 6 * Kd(i, j) * Kd(k, l))
            [] c = "iso" -> M4(LAMBDA i, j, k, l : 2 * Kd(i, j) * Kd(k, l))
            [] c = "sym" -> M4(LAMBDA i, j, k, l : 3 * ((Kd(i, k) * Kd(j, l)) + (Kd(i, l) * Kd(j, k))))
            [] c = "skew" -> M4(LAMBDA i, j, k, l : 3 * ((Kd(i, k) * Kd(j, l)) - (Kd(i, l) * Kd(j, k))))
            [] c = "dev" -> M4(LAMBDA i, j, k, l : (6 * Kd(i, k) * Kd(j, l)) - (2 * Kd(i, j) * Kd(k, l)))
            [] c = "symdev" -> M4(LAMBDA i, j, k, l : (3 * ((Kd(i, k) * Kd(j, l)) + (Kd(i, l) * Kd(j, k)))) - (2 * Kd(i, j) * Kd(k, l)))
Reducible == {"jj", "iso", "sym", "symdev"}

\* what a form can hold
InPlane(i, j) == i = j \/ {i, j} = {0, 1}
Fits2(rp, a) == rp = 0 \/ \A i \in 0..2, j \in 0..2 : I2(a, i, j) = I2(a, j, i) /\ (rp = 2 => InPlane(i, j) \/ I2(a, i, j) = 0)
\* coordinates in the Kelvin basis without their factors, as in the tables of constants
PairAt == <<0, 4, 8, 1, 5, 2, 3, 7, 6>>
Co(G(_, _), m) == LET p == PairAt[m]  i == p \div 3  j == p % 3 IN IF i = j THEN G(i, j) ELSE IF i < j THEN G(i, j) + G(j, i) ELSE G(j, i) - G(i, j)
Table(x) == [n \in 1..81 |-> Co(LAMBDA i, j : Co(LAMBDA k, l : I4(x, i, j, k, l), ((n - 1) % 9) + 1), ((n - 1) \div 9) + 1)]

\* trace, determinant, squared norm, 3 times the squared deviator norm, 27 J3, the invariants I1 I2 I3, 6 J2, 27 J3
Own(a) == LET d == TLCEval(Dev3(a))  t == Tr(a) IN
  <<t, Det(a), Dd22(a, a), Dd22(d, d) \div 3, Det(d), t, ((t * t) - Dd22(a, Transp(a))) \div 2, Det(a), Dd22(d, Transp(d)) \div 3, Det(d)>>
Omega2(a) == <<I2(a, 2, 1) - I2(a, 1, 2), I2(a, 0, 2) - I2(a, 2, 0), I2(a, 1, 0) - I2(a, 0, 1)>>
=============================================================================
