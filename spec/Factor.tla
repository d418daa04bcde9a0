------------------------------- MODULE Factor -------------------------------
(* Inverses, solves, factorizations and eigenproblems of small integer        *)
(* matrices, decided by their defining equations.  A matrix is a sequence of  *)
(* rows of complex integers <<re, im>>; returned numbers carry six decimals.  *)
EXTENDS Base
Rows(a) == Len(a)
Cols(a) == IF Len(a) = 0 THEN 0 ELSE Len(a[1])
Square(a) == Rows(a) = Cols(a)
Mat(m, n, f(_, _)) == TLCEval([i \in 1..m |-> [j \in 1..n |-> f(i, j)]])
Conj(z) == <<z[1], -z[2]>>
CSub(z, w) == <<z[1] - w[1], z[2] - w[2]>>
CNeg(z) == <<-z[1], -z[2]>>
Adj(a) == Mat(Cols(a), Rows(a), LAMBDA i, j : Conj(a[j][i]))
One == <<1, 0>>
Eye(n) == Mat(n, n, LAMBDA i, j : IF i = j THEN One ELSE CZ)
Prod(a, b) == Mat(Rows(a), Cols(b), LAMBDA i, j : CSumF(LAMBDA k : CMul(a[i][k], b[k][j]), Cols(a)))
Trace1(a) == CSumF(LAMBDA k : a[k][k], Rows(a))

\* determinant by fraction-free elimination; every division is exact
CDiv(z, w) == IF w[2] = 0 THEN <<z[1] \div w[1], z[2] \div w[1]>>
              ELSE LET p == CMul(z, Conj(w))
                       d == w[1] * w[1] + w[2] * w[2]
                   IN <<p[1] \div d, p[2] \div d>>
SwapRows(a, p, q) == [a EXCEPT ![p] = a[q], ![q] = a[p]]
ElimStep(st, k) ==
  LET n == Len(st.m)
      cand == {r \in k..n : st.m[r][k] # CZ}
  IN IF st.zero \/ cand = {} THEN [st EXCEPT !.zero = TRUE]
     ELSE LET r == CHOOSE r \in cand : \A s \in cand : r <= s
              m == SwapRows(st.m, k, r)
              piv == m[k][k]
          IN [m |-> Mat(n, n, LAMBDA i, j : IF i > k /\ j > k THEN CDiv(CSub(CMul(m[i][j], piv), CMul(m[i][k], m[k][j])), st.prev) ELSE m[i][j]),
              sign |-> IF r = k THEN st.sign ELSE -st.sign, prev |-> piv, zero |-> FALSE]
Det(a) ==
  IF Len(a) = 0 THEN One
  ELSE LET n == Len(a)
           e == FoldLeft(ElimStep, [m |-> a, sign |-> 1, prev |-> One, zero |-> FALSE], Idx(n - 1))
           d == e.m[n][n]
       IN IF e.zero THEN CZ ELSE <<e.sign * d[1], e.sign * d[2]>>
Lead(a, k) == Mat(k, k, LAMBDA i, j : a[i][j])
Minor(a, p, q) == Mat(Len(a) - 1, Len(a) - 1, LAMBDA i, j : a[IF i < p THEN i ELSE i + 1][IF j < q THEN j ELSE j + 1])
Cofactor(a, p, q) == LET d == Det(Minor(a, p, q)) IN IF (p + q) % 2 = 0 THEN d ELSE CNeg(d)
Adjugate(a) == Mat(Len(a), Len(a), LAMBDA i, j : Cofactor(a, j, i))
Singular(a) == Det(a) = CZ
ZeroLine(a) == \E k \in 1..Len(a) : (\A j \in 1..Len(a) : a[k][j] = CZ) \/ (\A j \in 1..Len(a) : a[j][k] = CZ)
\* the Hermitian matrix whose upper (lower) triangle is given
Full(a, up) == Mat(Len(a), Len(a), LAMBDA i, j : IF i = j THEN <<a[i][i][1], 0>> ELSE IF (up = 1) <=> (i < j) THEN a[i][j] ELSE Conj(a[j][i]))
\* 1 when positive definite, -1 when not, 0 on the border or undecided (minors beyond the integers of this model)
Dominant(h) == \A i \in 1..Len(h) : h[i][i][1] > SumF(LAMBDA j : IF j = i THEN 0 ELSE Abs(h[i][j][1]) + Abs(h[i][j][2]), Len(h))
Definite(given) ==
  LET h == TLCEval(given)
      n == Len(h)
      top == MaxSeq([k \in 1..n |-> Abs(h[k][k][1])])
  IN IF Dominant(h) THEN 1
     ELSE IF \E k \in 1..n : h[k][k][1] < 0 THEN -1
     ELSE IF n > 4 \/ (n = 4 /\ top > 8) THEN 0
     ELSE LET d == TLCEval([k \in 1..n |-> Det(Lead(h, k))[1]])
              bad == {k \in 1..n : d[k] <= 0}
          IN IF bad = {} THEN 1 ELSE LET k == CHOOSE k \in bad : \A q \in bad : k <= q IN IF d[k] < 0 THEN -1 ELSE 0

\* six-decimal fixed point; the product of magnitudes must stay below 2000
U6 == 1000000
FMul6(a, b) ==
  LET ah == a \div 1000
      al == a % 1000
      bh == b \div 1000
      bl == b % 1000
  IN ah * bh + (ah * bl) \div 1000 + (al * bh) \div 1000
CF(z, w) == <<FMul6(z[1], w[1]) - FMul6(z[2], w[2]), FMul6(z[1], w[2]) + FMul6(z[2], w[1])>>
FProd(a, b) == Mat(Rows(a), Cols(b), LAMBDA i, j : CSumF(LAMBDA k : CF(a[i][k], b[k][j]), Cols(a)))
CNear(z, w, t) == Near(z[1], w[1], t) /\ Near(z[2], w[2], t)
MNear(a, b, t) == Rows(a) = Rows(b) /\ \A i \in 1..Rows(a) : \A j \in 1..Cols(a) : CNear(a[i][j], b[i][j], t)
Fix(z) == <<z[1] * U6, z[2] * U6>>
FixM(a) == Mat(Rows(a), Cols(a), LAMBDA i, j : Fix(a[i][j]))
Within(a, top) == \A i \in 1..Rows(a) : \A j \in 1..Cols(a) : Abs(a[i][j][1]) <= top /\ Abs(a[i][j][2]) <= top
Orthonormal(v) == MNear(FProd(Adj(v), v), FixM(Eye(Cols(v))), 30)

\* x is the inverse of a
InvOk(a, x) == Rows(x) = Rows(a) /\ Cols(x) = Cols(a)
               /\ (Within(x, 40000000) => MNear(Prod(a, x), FixM(Eye(Len(a))), 40) /\ MNear(Prod(x, a), FixM(Eye(Len(a))), 40))
\* the columns of x solve a x = b
SolOk(a, x, b) == Rows(x) = Rows(b) /\ (Within(x, 40000000) => MNear(Prod(a, x), FixM(b), 40))
\* the four conditions that determine the pseudo-inverse
PinvOk(a, x) ==
  LET ax == Prod(a, x)
      xa == Prod(x, a)
  IN Rows(x) = Cols(a) /\ Cols(x) = Rows(a)
     /\ MNear(Prod(ax, a), FixM(a), 200) /\ MNear(FProd(x, ax), x, 200) /\ MNear(Adj(ax), ax, 20) /\ MNear(Adj(xa), xa, 20)
CholOk(a, up, x) ==
  LET n == Len(a)
      f == Mat(n, n, LAMBDA i, j : IF i = j \/ ((up = 1) <=> (i < j)) THEN x[i][j] ELSE CZ)
  IN /\ \A i \in 1..n : x[i][i][1] >= 0 /\ x[i][i][2] = 0
     /\ \A i \in 1..n : \A j \in 1..n : (i # j /\ ((up = 1) <=> (i > j))) => x[i][j] = Fix(a[i][j])
     /\ MNear(IF up = 1 THEN FProd(Adj(f), f) ELSE FProd(f, Adj(f)), FixM(Full(a, up)), 100)
SvdOk(a, s, u, v) ==
  LET m == Rows(a)
      n == Cols(a)
      k == Min2(m, n)
      us == Mat(m, n, LAMBDA i, j : IF j > k THEN CZ ELSE CF(u[i][j], s[j]))
  IN /\ Len(s) = k /\ Orthonormal(u) /\ Orthonormal(v)
     /\ \A j \in 1..k : s[j][1] >= 0 /\ (j > 1 => s[j][1] <= s[j - 1][1])
     /\ MNear(FProd(us, v), FixM(a), 200)
\* column j of v belongs to the eigenvalue l[j]
PairOk(a, l, v, j, t) == \A i \in 1..Len(a) : CNear(CSumF(LAMBDA k : CMul(a[i][k], v[k][j]), Len(a)), CF(l[j], v[i][j]), t)
Unitary(v, j) == Near(SumF(LAMBDA i : FMul6(v[i][j][1], v[i][j][1]) + FMul6(v[i][j][2], v[i][j][2]), Len(v)), U6, 40)
\* the sums of powers of all eigenvalues are the traces of the powers of the matrix
Bound(a) == MaxSeq([i \in 1..Len(a) |-> SumF(LAMBDA j : Abs(a[i][j][1]) + Abs(a[i][j][2]), Len(a))])
PowersOk(a, l) ==
  LET n == Len(a)
      b == Bound(a)
      a2 == Prod(a, a)
      l2 == [k \in 1..n |-> CF(l[k], l[k])]
  IN /\ CNear(CSumF(LAMBDA k : l[k], n), Fix(Trace1(a)), 20)
     /\ (n * b * b <= 2000 => CNear(CSumF(LAMBDA k : l2[k], n), Fix(Trace1(a2)), 600))
     /\ (n * b * b * b <= 2000 => CNear(CSumF(LAMBDA k : CF(l2[k], l[k]), n), Fix(Trace1(Prod(a2, a))), 2000))
RightOk(a, l, v) == \A j \in 1..Len(a) : PairOk(a, l, v, j, 80) /\ Unitary(v, j)
LeftOk(a, l, u) == LET ah == Adj(a)
                       lc == [k \in 1..Len(l) |-> Conj(l[k])]
                   IN \A j \in 1..Len(a) : PairOk(ah, lc, u, j, 80) /\ Unitary(u, j)
SymOk(h, l, v, sorted) == /\ RightOk(h, l, v) /\ Orthonormal(v) /\ \A j \in 1..Len(l) : l[j][2] = 0 /\ (sorted /\ j > 1 => l[j - 1][1] <= l[j][1])
\* packed real eigenvectors: a pair of columns holds the real and imaginary parts
Unpack(v, sg) ==
  Mat(Len(v), Len(v), LAMBDA i, j : IF sg[j] = 0 THEN v[i][j]
                                    ELSE IF sg[j] > 0 THEN <<v[i][j][1], v[i][j + 1][1]>> ELSE <<v[i][j - 1][1], -v[i][j][1]>>)
GenPair(a, b, al, be, v, j) ==
  \A i \in 1..Len(a) : CNear(CF(be[j], CSumF(LAMBDA k : CMul(a[i][k], v[k][j]), Len(a))), CF(al[j], CSumF(LAMBDA k : CMul(b[i][k], v[k][j]), Len(a))), 900)
GenSized(v, j) == Near(MaxSeq([i \in 1..Len(v) |-> Abs(v[i][j][1]) + Abs(v[i][j][2])]), U6, 3)
\* the ratios add up to the trace of the matrix of the reduced problem
Ratios(a, b, q) == LET d == Det(b) IN
  (d # CZ /\ Len(a) <= 4 /\ (\A k \in 1..Len(q) : Abs(q[k][1]) < 40000000 /\ Abs(q[k][2]) < 40000000) /\ Abs(d[1]) + Abs(d[2]) <= 12)
     => CNear(CMul(CSumF(LAMBDA k : q[k], Len(q)), d), Fix(Trace1(Prod(Adjugate(b), a))), 2000)
=============================================================================
