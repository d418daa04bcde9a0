------------------------------- MODULE Stat -------------------------------
(* Descriptive statistics of data given as integers over a denominator.     *)
EXTENDS Rational
NaN == 99999
Infinite == 88888
Number(v) == Abs(v) # NaN
Real(v) == Abs(v) < Infinite

\* ---- histogram: half-open bins between stations
InBin(s, i, v) == Number(v) /\ s[i] <= v /\ v < s[i + 1]
Tally(s, x) == [i \in 1..(Len(s) - 1) |-> Cardinality({j \in 1..Len(x) : InBin(s, i, x[j])})]
Plus(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
HStep(s, c, a) == CASE a.k = "cnt" -> Plus(c, Tally(s, a.x)) [] a.k = "rst" -> [i \in 1..(Len(s) - 1) |-> 0] [] OTHER -> c
Total(c) == SumF(LAMBDA i : c[i], Len(c))
Largest(c) == FoldLeft(LAMBDA m, i : Max2(m, c[i]), 0, Idx(Len(c)))
\* bars are proportional to the counts, rounded down
Drawn(c, o) ==
  IF Largest(c) = 0 THEN o.zero /\ o.bars = <<>>
  ELSE /\ ~o.zero /\ o.shown = c /\ o.sum = Total(c) /\ Len(o.bars) = Len(c)
       /\ \A i \in 1..Len(c) : LET p == o.len * c[i]
                                   b == p \div Largest(c)
                               IN o.bars[i] = b \/ (p % Largest(c) = 0 /\ b > 0 /\ o.bars[i] = b - 1)
Hist(e) ==
  IF Len(e.s) < 2 THEN e.st = "err"
  ELSE /\ e.st = "ok" /\ Len(e.out) = Len(e.h)
       /\ LET c0 == [i \in 1..(Len(e.s) - 1) |-> 0]
              r == FoldLeft(LAMBDA q, k : LET c == TLCEval(HStep(e.s, q[1], e.h[k])) IN <<c, q[2] /\ e.out[k].c = c /\ Drawn(c, e.out[k])>>, <<c0, TRUE>>, Idx(Len(e.h)))
          IN r[2]

\* ---- summary
SumX(x) == SumF(LAMBDA i : x[i], Len(x))
SumXX(x) == SumF(LAMBDA i : x[i] * x[i], Len(x))
Least(x) == CHOOSE v \in {x[i] : i \in 1..Len(x)} : \A i \in 1..Len(x) : v <= x[i]
Most(x) == CHOOSE v \in {x[i] : i \in 1..Len(x)} : \A i \in 1..Len(x) : v >= x[i]
Variance(x, den) == LET n == Len(x)
                        v == n * SumXX(x) - SumX(x) * SumX(x)
                    IN IF n < 2 THEN <<0, 1>> ELSE Red(v, n * (n - 1) * den * den)
Stats(e) ==
  LET x == e.x  d == e.den  n == Len(x) IN
  /\ e.st = "ok" /\ e.txt
  /\ IF n = 0 THEN \A i \in 1..4 : Tiny(e.v[i], 0)
     ELSE LET var == Variance(x, d) IN
       /\ Close(e.v[1], Least(x), d, 1) /\ Close(e.v[2], Most(x), d, 1) /\ Close(e.v[3], SumX(x), n * d, 2)
       /\ Close(e.v[4], var[1], var[2], 4)
       /\ e.sd \in {"zero", "one", "pos"}
       /\ \A i \in 1..4 : Tiny(e.perm[i], 20)

\* ---- quantiles by linear interpolation between sorted values
Sorted(x) == SortSeq(x, LAMBDA a, b : a < b)
QD == 128
\* q/QD of the way: value times QD den
Quant(y, q) == LET p == q * (Len(y) - 1)
                   i == p \div QD
                   f == p % QD
               IN QD * y[i + 1] + (IF f = 0 THEN 0 ELSE f * (y[i + 2] - y[i + 1]))
\* stable order of the positions
Order(x) == SortSeq(Idx(Len(x)), LAMBDA a, b : x[a] < x[b] \/ (x[a] = x[b] /\ a < b))
Ord(e) ==
  LET x == e.x  d == e.den IN
  /\ e.st = "ok"
  /\ IF Len(x) = 0 \/ (Len(x) > 1 /\ \E i \in 1..Len(x) : ~Number(x[i])) THEN
       /\ e.quart.st = "panic" /\ e.iqr.st = "panic" /\ e.outl.st = "panic"
       /\ \A i \in 1..Len(e.q) : e.qs[i].st = "panic"
     ELSE
       LET y == TLCEval(Sorted(x))
           q1 == Quant(y, QD \div 4)
           q3 == Quant(y, 3 * (QD \div 4))
           lo == 2 * q1 - 3 * (q3 - q1)   \* times 2 QD den
           hi == 2 * q3 + 3 * (q3 - q1)
           far == SelectSeq(Order(x), LAMBDA i : 2 * QD * x[i] < lo \/ 2 * QD * x[i] > hi)
           edge == \E i \in 1..Len(x) : 2 * QD * x[i] \in {lo, hi}   \* decided by rounding unless exact
       IN /\ e.quart.st = "ok" /\ e.quart.y = y
          /\ Close(e.quart.v[1], q1, QD * d, 1) /\ Close(e.quart.v[2], Quant(y, QD \div 2), QD * d, 1) /\ Close(e.quart.v[3], q3, QD * d, 1)
          /\ e.iqr.st = "ok" /\ Close(e.iqr.v, q3 - q1, QD * d, 1)
          /\ e.outl.st = "ok" /\ (~edge \/ d \in {1, 2, 4}) => e.outl.o = [i \in 1..Len(far) |-> <<far[i], x[far[i]]>>]
          /\ \A i \in 1..Len(e.q) : IF e.q[i] \in 0..QD THEN e.qs[i].st = "ok" /\ Close(e.qs[i].v, Quant(y, e.q[i]), QD * d, 1)
                                    ELSE e.qs[i].st = "panic"
Ok(e) == CASE e.f = "hist" -> Hist(e) [] e.f = "stats" -> Stats(e) [] e.f = "ord" -> Ord(e)
=============================================================================
