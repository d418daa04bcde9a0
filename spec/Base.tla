-------------------------------- MODULE Base --------------------------------
(* Shared operators: sums, complex integer scalars <<re, im>>, vectors and   *)
(* matrices as (nested, 1-based) sequences.                                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Near(a, b, tol) == Abs(a - b) <= tol

Idx(n) == [k \in 1..n |-> k]
\* integer sum  f(1) + ... + f(n)
SumF(f(_), n) == FoldLeft(LAMBDA acc, k : acc + f(k), 0, Idx(n))
SumSeq(s) == FoldLeft(LAMBDA acc, x : acc + x, 0, s)
MaxSeq(s) == FoldLeft(LAMBDA acc, x : Max2(acc, x), Head(s), s)
MinSeq(s) == FoldLeft(LAMBDA acc, x : Min2(acc, x), Head(s), s)
ProdF(f(_), n) == FoldLeft(LAMBDA acc, k : acc * f(k), 1, Idx(n))

Pow(x, n) == FoldLeft(LAMBDA t, k : t * x, 1, Idx(n))
\* rounded division for possibly negative numerators (d > 0)
RoundDiv(n, d) == (2 * n + d) \div (2 * d)

\* fixed-point numbers with eight decimals, magnitudes up to 10: product within 2 units
Unit8 == 100000000
FMul8(a, b) ==
  LET ah == a \div 10000
      al == a % 10000
      bh == b \div 10000
      bl == b % 10000
  IN ah * bh + (ah * bl + al * bh) \div 10000

\* complex integers
CZ == <<0, 0>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CSumF(f(_), n) == FoldLeft(LAMBDA acc, k : CAdd(acc, f(k)), CZ, Idx(n))
CZeros(m, n) == [i \in 1..m |-> [j \in 1..n |-> CZ]]

IsShape(a, m, n) == Len(a) = m /\ \A i \in 1..Len(a) : Len(a[i]) = n
=============================================================================
