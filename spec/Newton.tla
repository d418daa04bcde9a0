------------------------------- MODULE Newton -------------------------------
(* Newton's method and backtracking line search as machines driven by the     *)
(* observed calls of the user functions; numerical derivatives of polynomials *)
(* and comparison helpers as functions.                                       *)
EXTENDS Base

Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
NotNum(v) == v[1] < 0

----------------------------------------------------------------------------
\* Newton: calls are records k = "f" (x, residual, norms) or k = "j" (x).
\* Quantities in ten-thousandths, logarithms of norms in millionths.
Valid(e) == e.max >= 1 /\ e.tol <= 14 /\ e.div >= 1 /\ e.al > 0 /\ e.n = e.dim
Count(s, k) == Len(SelectSeq(s, LAMBDA c : c.k = k))
Converged(e, c) == ~NotNum(c.nb) /\ Lt(c.nb, e.tb)
\* growth of the residual beyond the divergence limit (TRUE, FALSE or undecided near the limit)
SureDiverged(e, c) == ~NotNum(c.nb) /\ ~NotNum(e.calls[1].nb) /\ c.ln < 1900000000 /\ c.ln > e.calls[1].ln + e.ld + 20
MaybeDiverged(e, c) == NotNum(c.nb) \/ c.ln >= e.calls[1].ln + e.ld - 20
Mul4(a, b) == (a * (b \div 1000)) \div 10 + ((a \div 100) * (b % 1000)) \div 100
Jac4(e, x, i, j) == e.a[i][j] * 10000 + 2 * e.b[i][j] * x[j]
Small(x) == \A i \in 1..Len(x) : Abs(x[i]) <= 180000
\* the step d taken from x with residual r solves  J(x) d = -(al/4) r
StepOk(e, x, r, d, al) == (Small(x) /\ Small(d) /\ \A i \in 1..e.n : Abs(r[i]) < 5000000) =>
  \A i \in 1..e.n : Near(SumF(LAMBDA j : Mul4(Jac4(e, x, i, j), d[j]), e.n), -((al * r[i]) \div 4), 150 + MaxSeq([j \in 1..e.n |-> Abs(Jac4(e, x, i, j))]) \div 2000)
Diff(u, v) == [i \in 1..Len(u) |-> u[i] - v[i]]
\* start of the group of trial evaluations that follow each Jacobian
JAt(e) == {k \in 1..Len(e.calls) : e.calls[k].k = "j"}
GroupEnd(e, k) == LET nx == {m \in JAt(e) : m > k} IN IF nx = {} THEN Len(e.calls) ELSE (CHOOSE m \in nx : \A q \in nx : m <= q) - 1
Base0(e, k) == e.calls[k - 1]

\* a Jacobian is asked for only after an evaluation that neither converged nor diverged
Asked(e) == \A k \in JAt(e) : k > 1 /\ e.calls[k - 1].k = "f" /\ ~Converged(e, e.calls[k - 1]) /\ e.calls[k].x = e.calls[k - 1].x
  /\ (k > 2 => ~SureDiverged(e, e.calls[k - 1]))
\* without line search one evaluation follows, at the Newton point
PlainGroup(e, k) == LET g == GroupEnd(e, k) IN g <= k + 1 /\ (g = k + 1 =>
  LET b == Base0(e, k) IN StepOk(e, b.x, b.r, Diff(e.calls[g].x, b.x), 4))
\* with line search the step is halved until the squared residual decreases enough
Enough(al, m) == -((al * 500) \div Pow(2, m))       \* ln(1 - 2e-4 alpha), units 10^-7, alpha = al/4 / 2^m
SearchGroup(e, k) ==
  LET g == GroupEnd(e, k)
      b == Base0(e, k)
      last == g = Len(e.calls)
  IN /\ g - k <= 20
     /\ g > k => StepOk(e, b.x, b.r, Diff(e.calls[k + 1].x, b.x), e.al)
     /\ \A t \in (k + 2)..g : LET m == t - k - 1 IN
          \A i \in 1..e.n : Abs(e.calls[k + 1].x[i] - b.x[i]) < 1000000 => Near((e.calls[t].x[i] - b.x[i]) * Pow(2, Min2(m, 10)), (e.calls[k + 1].x[i] - b.x[i]) \div Pow(2, m - Min2(m, 10)), 2 * Pow(2, Min2(m, 10)))
     /\ (Abs(b.lp) < 1500000000 /\ ~NotNum(b.nb)) =>
        /\ \A t \in (k + 1)..(g - 1) : NotNum(e.calls[t].nb) \/ e.calls[t].lp >= b.lp + Enough(e.al, t - k - 1) - 8
        /\ (~last /\ g > k /\ g - k < 20) => e.calls[g].lp <= b.lp + Enough(e.al, g - k - 1) + 8
Groups(e) == \A k \in JAt(e) : IF e.ls = 1 THEN SearchGroup(e, k) ELSE PlainGroup(e, k)
\* determinant of the first Jacobian (integer start)
Det3(m) == CASE Len(m) = 1 -> m[1][1]
             [] Len(m) = 2 -> m[1][1] * m[2][2] - m[1][2] * m[2][1]
             [] OTHER -> m[1][1] * (m[2][2] * m[3][3] - m[2][3] * m[3][2]) - m[1][2] * (m[2][1] * m[3][3] - m[2][3] * m[3][1]) + m[1][3] * (m[2][1] * m[3][2] - m[2][2] * m[3][1])
J0(e) == [i \in 1..e.n |-> [j \in 1..e.n |-> e.a[i][j] + 2 * e.b[i][j] * e.x0[j]]]
Outcome(e) ==
  LET n == Len(e.calls)
      z == e.calls[n]
      nj == Count(e.calls, "j")
  IN IF e.st = "ok" THEN z.k = "f" /\ Converged(e, z) /\ z.xb = e.xb /\ nj <= e.max - 1
     ELSE /\ e.st = "err"
          /\ \/ e.fail > 0 /\ n = e.fail
             \/ z.k = "j" /\ (n = 2 => (Det3(J0(e)) = 0 \/ NotNum(e.calls[1].nb)))
             \/ z.k = "f" /\ nj >= 1 /\ MaybeDiverged(e, z)
             \/ z.k = "f" /\ nj = e.max
Counters(e) == IF e.stats = 0 THEN e.on = 0
  ELSE e.on = 1 /\ (e.st = "ok" => e.nf = Count(e.calls, "f") /\ e.nj = Count(e.calls, "j") /\ e.ni = e.nj + 1)
\* a linear system with a regular matrix is solved by one full step
Linear(e) == (\A i, j \in 1..e.n : e.b[i][j] = 0) /\ e.fail = 0 /\ e.nan = 0 /\ Det3(J0(e)) # 0 /\ e.max >= 2 /\ e.tol <= 10 /\ (e.ls = 0 \/ e.al = 4)
NewtonOk(e) ==
  IF e.made = 0 THEN e.dim = 0 /\ e.st = "err"
  ELSE IF e.dim = 0 THEN TRUE
  ELSE IF ~Valid(e) THEN e.st = "err" /\ e.calls = << >>
  ELSE /\ Len(e.calls) >= 1 /\ e.calls[1].k = "f" /\ e.calls[1].x = [i \in 1..e.n |-> e.x0[i] * 10000]
       /\ (e.fail > 0 => Len(e.calls) <= e.fail)
       /\ Asked(e) /\ Groups(e) /\ Outcome(e) /\ Counters(e)
       /\ Linear(e) => e.st = "ok" /\ Len(e.calls) <= 3

----------------------------------------------------------------------------
\* Backtracking line search on a quadratic: exact arithmetic for the first trials
LineValid(e) == e.way # 0 \/ (e.c1 \in 1..15 /\ e.rho \in 1..3 /\ e.mina \in 1..255 /\ e.max >= 1)
Den(e, m) == IF e.way = 0 THEN (IF e.rho = 1 THEN Pow(4, m) ELSE Pow(2, m)) ELSE Pow(2, m)
C16(e) == e.c1 * 625       \* in ten-thousandths
Accepts(e, m) ==
  LET d == Den(e, m)
      z == e.x * d + e.p
      f == e.c[3] * z * z + e.c[2] * z * d + e.c[1] * d * d     \* value times d^2
  IN IF e.way = 0 THEN 16 * f <= 16 * e.fx * d * d + e.c1 * e.slope * d
     ELSE f <= e.fx * d * d /\ (d <= 32 => 10000 * (f - e.fx * d * d) <= e.slope * d)
Trials(e) == IF e.way = 0 /\ e.rho = 1 THEN 4 ELSE IF e.way = 0 THEN 8 ELSE 5
Limit(e) == IF e.way = 0 THEN e.max ELSE 20
\* the trial at which the search stops because the step is too small
TooSmall(e, m) == e.way = 0 /\ 256 < e.mina * Den(e, m + 1)
FirstStop(e) == LET s == {m \in 0..(Trials(e) - 1) : m < Limit(e) /\ (Accepts(e, m) \/ TooSmall(e, m) \/ m + 1 = Limit(e) \/ (e.fail > 0 /\ m + 1 = e.fail))} IN
  IF s = {} THEN -1 ELSE CHOOSE m \in s : \A k \in s : m <= k
LineOk(e) ==
  IF ~LineValid(e) \/ e.slope >= 0 THEN e.st = "err" /\ e.seen = << >>
  ELSE IF e.way = 0 /\ e.rho = 3 THEN TRUE
  ELSE LET m == FirstStop(e) IN
    /\ \A k \in 1..Min2(Len(e.seen), Trials(e)) : e.seen[k] = e.x * 65536 + e.p * (65536 \div Den(e, k - 1))
    /\ IF m = -1 THEN Len(e.seen) >= Trials(e)
       ELSE /\ Len(e.seen) = m + 1
            /\ IF e.fail = m + 1 THEN e.st = "err"
               ELSE IF Accepts(e, m) THEN e.st = "ok" /\ e.al = 65536 \div Den(e, m) /\ e.n \in {-1, m + 1}
               ELSE e.st = "err"

----------------------------------------------------------------------------
\* Polynomials with integer coefficients, x = q/4: derivative times 4^(deg-1)
Coef(c, k) == IF k + 1 <= Len(c) THEN c[k + 1] ELSE 0
D1q(c, q) == Coef(c, 1) * 64 + 2 * Coef(c, 2) * q * 16 + 3 * Coef(c, 3) * q * q * 4 + 4 * Coef(c, 4) * q * q * q      \* times 64
D2q(c, q) == 2 * Coef(c, 2) * 16 + 6 * Coef(c, 3) * q * 4 + 12 * Coef(c, 4) * q * q                                    \* times 16
DerivOk(e) ==
  IF e.fail > 0 /\ e.k >= e.fail THEN e.st = "err" /\ e.k = e.fail
  ELSE e.st = "ok" /\ IF e.w \in {"c1", "f1", "b1"} THEN Near(e.d, RoundDiv(D1q(e.c, e.x) * 3125, 2), 3)
                      ELSE Near(e.d, D2q(e.c, e.x) * 625, 4)
\* value of derivative in quarters at integer x (degree up to two)
Claim(e) == IF e.w \in {"c1", "f1", "b1"} THEN D1q(e.c, e.x) \div 16 ELSE D2q(e.c, e.x) \div 4
SameOk(e) ==
  IF e.d > 900000 THEN e.st = "panic"
  ELSE LET gap == Abs(e.d - Claim(e)) IN
    IF gap > e.tol THEN e.st = "panic" ELSE gap < e.tol => e.st = "ok"
PD(c, y) == Coef(c, 1) + 2 * Coef(c, 2) * y + 3 * Coef(c, 3) * y * y
Cross(e, i, j) == IF e.n = 1 \/ j > 2 THEN 0 ELSE i * e.y[3 - j]
JacOk(e) ==
  IF e.fail > 0 /\ e.k >= e.fail THEN e.st = "err" /\ e.k = e.fail
  ELSE e.st = "ok" /\ \A i, j \in 1..e.n : LET v == e.al * (e.x * PD(e.c[i][j], e.y[j]) + Cross(e, i, j)) IN Abs(v) > 1800 \/ Near(e.j[i][j], v * 1000000, 20)

\* the same with a sparse matrix: sizes may exceed what is needed; only the stored part is filled, anew each time,
\* and the point of evaluation is left as it was, also when a call of the function fails
Held(e, i, j) == CASE e.sym = 2 -> i >= j [] e.sym = 3 -> i <= j [] OTHER -> TRUE
SJacOk(e) ==
  LET short == \E q \in 1..6 : e.d[q] < 0 IN
  IF e.st = "none" THEN e.n + e.d[1] < 1 \/ e.n + e.d[2] < 1 \/ (e.sym > 0 /\ e.d[1] # e.d[2])
  ELSE /\ e.kept = 1
       /\ IF short /\ ~(e.n = 1 /\ e.d[3] = -1) THEN e.st = "err" /\ e.k = 0
          ELSE IF e.fail > 0 /\ e.fail <= e.n + 1 /\ e.k >= e.fail THEN e.st = "err" /\ e.k = e.fail
          ELSE IF short THEN TRUE
          ELSE /\ e.st = "ok" /\ e.k = e.n + 1
               /\ Len(e.t) = Cardinality({p \in (1..e.n) \X (1..e.n) : Held(e, p[1], p[2])})
               /\ \A i, j \in 1..e.n : Held(e, i, j) =>
                    \E q \in 1..Len(e.t) : LET v == e.al * (e.x * PD(e.c[i][j], e.y[j]) + Cross(e, i, j))
                                           IN e.t[q][1] = i - 1 /\ e.t[q][2] = j - 1 /\ Near(e.t[q][3], v * 1000, 200)

\* comparison helpers: values in quarters, codes above 900000 for special values
Special(v) == v \in {900001, 900002, 900003}
Value(v) == IF v = 900004 THEN 0 ELSE v
Close(u, v, tol) == ~Special(u) /\ ~Special(v) /\ Abs(Value(u) - Value(v)) <= tol
Alike(u, v) == u = v
CmpOk(e) == LET same == IF e.w = "alike" THEN Alike(e.u[1], e.v[1])
                        ELSE Len(e.u) = Len(e.v) /\ \A k \in 1..Len(e.u) : Close(e.u[k], e.v[k], e.tol)
  IN e.st = IF same THEN "ok" ELSE "panic"

Ok(e) ==
  CASE e.f = "newton" -> NewtonOk(e)
    [] e.f = "line" -> LineOk(e)
    [] e.f = "deriv" -> DerivOk(e)
    [] e.f = "same" -> SameOk(e)
    [] e.f = "jac" -> JacOk(e)
    [] e.f = "sjac" -> SJacOk(e)
    [] e.f = "cmp" -> CmpOk(e)
=============================================================================
