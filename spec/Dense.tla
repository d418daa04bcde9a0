------------------------------- MODULE Dense -------------------------------
(* Dense vectors and matrices as a pool of named slots; every operation is a  *)
(* function of the slots it reads.  Scalars are complex integers <<re, im>>.  *)
(* A matrix is [r, c, a] with a the sequence of rows.                         *)
EXTENDS Base
\* a matrix is a record, a vector a sequence (the fields of a record print as quoted names)
IsMat(x) == SubSeq(ToString(DOMAIN x), 1, 2) = "{\""
MakeM(m, n, f(_, _)) == [r |-> m, c |-> n, a |-> [i \in 1..m |-> [j \in 1..n |-> f(i, j)]]]
MakeV(n, f(_)) == [i \in 1..n |-> f(i)]
At(x, i, j) == x.a[i][j]
Same(x, y) == IF IsMat(x) THEN IsMat(y) /\ x.r = y.r /\ x.c = y.c ELSE ~IsMat(y) /\ Len(x) = Len(y)
\* entry by entry combination of one or two operands
Each1(x, f(_)) == IF IsMat(x) THEN MakeM(x.r, x.c, LAMBDA i, j : f(At(x, i, j))) ELSE MakeV(Len(x), LAMBDA i : f(x[i]))
Each2(x, y, f(_, _)) == IF IsMat(x) THEN MakeM(x.r, x.c, LAMBDA i, j : f(At(x, i, j), At(y, i, j))) ELSE MakeV(Len(x), LAMBDA i : f(x[i], y[i]))
Lin(a, x, b, y) == CAdd(CMul(a, x), CMul(b, y))
Conj(z) == <<z[1], -z[2]>>
One == <<1, 0>>
Neg1 == <<-1, 0>>
T(x) == MakeM(x.c, x.r, LAMBDA i, j : At(x, j, i))
H(x) == MakeM(x.c, x.r, LAMBDA i, j : Conj(At(x, j, i)))
Prod(x, y) == MakeM(x.r, y.c, LAMBDA i, j : CSumF(LAMBDA k : CMul(At(x, i, k), At(y, k, j)), x.c))
Scale(a, x) == Each1(x, LAMBDA z : CMul(a, z))
Sum2(x, y) == Each2(x, y, LAMBDA p, q : CAdd(p, q))
MatVec(x, u) == MakeV(x.r, LAMBDA i : CSumF(LAMBDA k : CMul(At(x, i, k), u[k]), x.c))
Outer(u, v) == MakeM(Len(u), Len(v), LAMBDA i, j : CMul(u[i], v[j]))
\* replaces one triangle (with diagonal) of old
Triangle(up, new, old) == MakeM(old.r, old.c, LAMBDA i, j : IF (up /\ i <= j) \/ (~up /\ i >= j) THEN At(new, i, j) ELSE At(old, i, j))
RealDiag(x) == MakeM(x.r, x.c, LAMBDA i, j : IF i = j THEN <<At(x, i, j)[1], 0>> ELSE At(x, i, j))

Mod2(z) == z[1] * z[1] + z[2] * z[2]
Flat(x) == IF IsMat(x) THEN [k \in 1..(x.r * x.c) |-> At(x, ((k - 1) \div x.c) + 1, ((k - 1) % x.c) + 1)] ELSE x
MaxF(f(_), n) == FoldLeft(LAMBDA m, k : Max2(m, f(k)), 0, Idx(n))
\* modulus when it is a whole number, else -1
Mod(z) == IF z[2] = 0 THEN Abs(z[1]) ELSE IF z[1] = 0 THEN Abs(z[2])
          ELSE IF \E k \in 1..400 : k * k = Mod2(z) THEN CHOOSE k \in 1..400 : k * k = Mod2(z) ELSE -1
WholeMods(s) == \A k \in 1..Len(s) : Mod(s[k]) >= 0
SumMod(s) == SumF(LAMBDA k : Mod(s[k]), Len(s))
RowOf(x, i) == x.a[i]
ColOf(x, j) == [i \in 1..x.r |-> At(x, i, j)]
\* the norm agrees with the observation: q its square, w itself
NormOk(x, kind, q, w) ==
  LET s == Flat(x) IN
  IF Len(s) = 0 THEN q = 0
  ELSE CASE kind \in {"euc", "fro"} -> q = SumF(LAMBDA k : Mod2(s[k]), Len(s))
         [] kind = "max" \/ (kind = "inf" /\ ~IsMat(x)) -> q = MaxF(LAMBDA k : Mod2(s[k]), Len(s))
         [] ~WholeMods(s) -> TRUE
         [] kind = "one" -> w = IF IsMat(x) THEN MaxF(LAMBDA j : SumMod(ColOf(x, j)), x.c) ELSE SumMod(s)
         [] kind = "inf" -> w = MaxF(LAMBDA i : SumMod(RowOf(x, i)), x.r)

Chunk(s, lo, hi) == SubSeq(s, lo + 1, hi)
Firsts(s) == [k \in 1..Len(s) |-> s[k][1]]
Diff(x, y) == Each2(x, y, LAMBDA p, q : <<p[1] - q[1], p[2] - q[2]>>)
MaxDiff(x, y) == LET d == Flat(Diff(x, y)) IN MaxF(LAMBDA k : Abs(d[k][1]), Len(d))
\* first position (rows first) of the largest difference
Where(x, y) ==
  LET d == Flat(Diff(x, y))
      m == MaxDiff(x, y)
      k == IF m = 0 THEN 1 ELSE CHOOSE k \in 1..Len(d) : Abs(d[k][1]) = m /\ \A h \in 1..(k - 1) : Abs(d[h][1]) < m
  IN IF IsMat(x) THEN (IF m = 0 THEN <<1, 1>> ELSE <<((k - 1) \div x.c) + 1, ((k - 1) % x.c) + 1>>) ELSE <<k>>
Mega == 1000000
MaxScaled(u, v, one) == IF Len(u) = 0 THEN 0 ELSE MaxF(LAMBDA k : (Abs(u[k][1]) * Mega) \div (one + Abs(v[k][1])), Len(u))
\* sum of squared scaled entries, six decimals
Sq(n, d) == (n * n * Mega) \div (d * d)
RmsSum(u, v, a, r) == SumF(LAMBDA k : Sq(u[k][1], a + r * Abs(v[k][1])), Len(u))
RmsDiff(u, v, a, r) == SumF(LAMBDA k : Sq(u[k][1] - v[k][1], a + r * Max2(Abs(u[k][1]), Abs(v[k][1]))), Len(u))

\* small operations work on the leading n entries of 4-entry arrays
Lead(n, new, old) == IF IsMat(old) THEN MakeM(4, 4, LAMBDA i, j : IF i <= n /\ j <= n THEN At(new, i, j) ELSE At(old, i, j))
                     ELSE MakeV(4, LAMBDA i : IF i <= n THEN new[i] ELSE old[i])
Pad(x) == IF IsMat(x) THEN MakeM(4, 4, LAMBDA i, j : IF i <= x.r /\ j <= x.c THEN At(x, i, j) ELSE CZ)
          ELSE MakeV(4, LAMBDA i : IF i <= Len(x) THEN x[i] ELSE CZ)
Block(x, n) == MakeM(n, n, LAMBDA i, j : At(x, i, j))
Grow(x) == MakeM(4, 4, LAMBDA i, j : IF i <= x.r /\ j <= x.c THEN At(x, i, j) ELSE CZ)

\* Shapes(op, o, i): the operation accepts these operands; otherwise it is refused
Accepts(op, o, i) ==
  LET f == op.f IN
  CASE f \in {"copy", "upd", "copys"} -> Same(o[1], i[1])
    [] f \in {"add", "plus", "minus", "zip"} -> Same(o[1], i[1]) /\ Same(o[1], i[2])
    [] f = "unzip" -> Same(o[1], i[1]) /\ Same(o[2], i[1])
    [] f = "mul" -> i[1].r = o[1].r /\ i[2].r = i[1].c /\ i[2].c = o[1].c
    [] f = "tmul" -> i[1].c = o[1].r /\ i[2].r = i[1].r /\ i[2].c = o[1].c
    [] f \in {"syrk", "herk"} -> o[1].r = o[1].c /\ (IF op.sec = 1 THEN i[1].c ELSE i[1].r) = o[1].r
    [] f = "band" -> o[1].r = op.ml + op.mu + 1 /\ o[1].c = i[1].c
    [] f \in {"mv", "mvu"} -> Len(o[1]) = i[1].r /\ Len(i[2]) = i[1].c
    [] f = "vm" -> Len(i[1]) = i[2].r /\ Len(o[1]) = i[2].c
    [] f \in {"outer", "outeru"} -> o[1].r = Len(i[1]) /\ o[1].c = Len(i[2])
    [] f = "sumc" -> Len(o[1]) = i[1].r
    [] f = "sumr" -> Len(o[1]) = i[1].c
    [] f \in {"maxabs", "near", "normd", "maxsc", "rms", "rmsd"} -> Same(i[1], i[2])
    [] f = "maxscd" -> Same(i[1], i[2]) /\ Same(i[1], i[3])
    [] f = "normc" -> Len(i[1]) = 0 \/ (op.lo < op.hi /\ op.hi <= Len(i[1]))
    [] f = "tri" -> i[1].r = i[1].c
    [] f = "row" -> op.ml < i[1].r
    [] f = "col" -> op.ml < i[1].c
    [] f = "elem" -> op.ml < o[1].r /\ op.mu < o[1].c
    [] f = "split" -> Len(o[1]) + Len(o[2]) = Len(i[1])
    [] f = "join" -> Len(i[1]) + Len(i[2]) = Len(o[1])
    [] f \in {"sadd", "supd", "smul"} -> op.ml <= 4
    [] OTHER -> TRUE
\* refusals that are errors; the others end the call abruptly
ByError(f) == f \in {"copy", "upd", "copys", "add", "plus", "minus", "zip", "unzip", "mul", "tmul", "syrk", "herk", "band", "mv", "mvu", "vm",
                     "outer", "outeru", "sumc", "sumr", "maxabs", "tri"}
\* contents of the output slots after an accepted operation
Result(op, o, i) ==
  LET f == op.f
      a == op.s[1]
      b == op.s[2]
      up == op.up = 1
  IN
  CASE f = "copy" -> <<i[1]>>
    [] f = "copys" -> <<Scale(a, i[1])>>
    [] f = "scale" -> <<Scale(a, o[1])>>
    [] f = "fill" -> <<Each1(o[1], LAMBDA z : a)>>
    [] f = "add" -> <<Each2(i[1], i[2], LAMBDA p, q : Lin(a, p, b, q))>>
    [] f = "plus" -> <<Sum2(i[1], i[2])>>
    [] f = "minus" -> <<Diff(i[1], i[2])>>
    [] f = "upd" -> <<Each2(o[1], i[1], LAMBDA p, q : CAdd(p, CMul(a, q)))>>
    [] f = "zip" -> <<Each2(i[1], i[2], LAMBDA p, q : <<p[1], q[1]>>)>>
    [] f = "unzip" -> <<Each1(i[1], LAMBDA z : <<z[1], 0>>), Each1(i[1], LAMBDA z : <<z[2], 0>>)>>
    [] f = "mul" -> <<Each2(Prod(i[1], i[2]), o[1], LAMBDA p, q : Lin(a, p, b, q))>>
    [] f = "tmul" -> <<Each2(Prod(T(i[1]), i[2]), o[1], LAMBDA p, q : Lin(a, p, b, q))>>
    [] f = "syrk" -> <<Triangle(up, Each2(IF op.sec = 1 THEN Prod(T(i[1]), i[1]) ELSE Prod(i[1], T(i[1])), o[1], LAMBDA p, q : Lin(a, p, b, q)), o[1])>>
    [] f = "herk" -> <<Triangle(up, Each2(IF op.sec = 1 THEN Prod(H(i[1]), i[1]) ELSE Prod(i[1], H(i[1])), RealDiag(o[1]), LAMBDA p, q : Lin(a, p, b, q)), o[1])>>
    [] f = "band" -> <<MakeM(o[1].r, o[1].c, LAMBDA k, j : LET q == (k - 1) + (j - 1) - op.mu IN IF q >= 0 /\ q < i[1].r THEN At(i[1], q + 1, j) ELSE At(o[1], k, j))>>
    [] f = "mv" -> <<Scale(a, MatVec(i[1], i[2]))>>
    [] f = "mvu" -> <<Each2(MatVec(i[1], i[2]), o[1], LAMBDA p, q : Lin(a, p, b, q))>>
    [] f = "vm" -> <<Scale(a, MatVec(T(i[2]), i[1]))>>
    [] f = "outer" -> <<Scale(a, Outer(i[1], i[2]))>>
    [] f = "outeru" -> <<Each2(o[1], Outer(i[1], i[2]), LAMBDA p, q : CAdd(p, CMul(a, q)))>>
    [] f = "sumc" -> <<MakeV(i[1].r, LAMBDA k : CSumF(LAMBDA j : At(i[1], k, j), i[1].c))>>
    [] f = "sumr" -> <<MakeV(i[1].c, LAMBDA k : CSumF(LAMBDA j : At(i[1], j, k), i[1].r))>>
    [] f = "trans" -> <<T(i[1])>>
    [] f = "tri" -> <<Triangle(up, i[1], MakeM(i[1].r, i[1].c, LAMBDA p, q : CZ))>>
    [] f = "diag" -> <<MakeM(Len(i[1]), Len(i[1]), LAMBDA p, q : IF p = q THEN i[1][p] ELSE CZ)>>
    [] f = "eye" -> <<MakeM(op.ml, op.ml, LAMBDA p, q : IF p = q THEN One ELSE CZ)>>
    [] f = "row" -> <<RowOf(i[1], op.ml + 1)>>
    [] f = "col" -> <<ColOf(i[1], op.ml + 1)>>
    [] f = "elem" -> <<MakeM(o[1].r, o[1].c, LAMBDA p, q : IF p = op.ml + 1 /\ q = op.mu + 1
                         THEN (CASE op.kind = "set" -> a [] op.kind = "add" -> CAdd(At(o[1], p, q), a) [] OTHER -> CMul(At(o[1], p, q), a)) ELSE At(o[1], p, q))>>
    [] f = "split" -> <<SubSeq(i[1], 1, Len(o[1])), SubSeq(i[1], Len(o[1]) + 1, Len(i[1]))>>
    [] f = "join" -> <<i[1] \o i[2]>>
    [] f = "diffs" -> <<MakeV(IF Len(i[1]) = 0 THEN 0 ELSE Len(i[1]) - 1, LAMBDA k : <<i[1][k + 1][1] - i[1][k][1], 0>>)>>
    [] f = "cumsum" -> LET run(k, z) == <<z + SumF(LAMBDA h : i[1][h][1], k), 0>> IN
                       <<IF up THEN MakeV(Len(i[1]) + 1, LAMBDA k : run(k - 1, a[1])) ELSE MakeV(Len(i[1]), LAMBDA k : run(k, 0))>>
    [] f = "lins" -> <<MakeV(op.ml, LAMBDA k : <<(IF up THEN 3 ELSE 1) * (IF op.ml = 1 THEN a[1] ELSE a[1] + ((b[1] - a[1]) \div (op.ml - 1)) * (k - 1)), 0>>)>>
    [] f = "grid" -> LET at(lo, hi, n, k) == IF n = 1 THEN lo ELSE lo + ((hi - lo) \div (n - 1)) * (k - 1)
                         x(q) == at(a[1], b[1], op.ml, q)
                         y(p) == at(a[2], b[2], op.mu, p)
                         all(g(_, _)) == MakeM(op.mu, op.ml, LAMBDA p, q : <<g(x(q), y(p)), 0>>)
                     IN <<all(LAMBDA u, v : u), all(LAMBDA u, v : v), IF up THEN all(LAMBDA u, v : 2 * u - 3 * v + u * v) ELSE o[3]>>
    [] f = "sadd" -> <<Lead(op.ml, Each2(Pad(i[1]), Pad(i[2]), LAMBDA p, q : Lin(a, p, b, q)), Pad(o[1]))>>
    [] f = "supd" -> <<Lead(op.ml, Each2(Pad(o[1]), Pad(i[1]), LAMBDA p, q : CAdd(p, CMul(a, q))), Pad(o[1]))>>
    [] f = "smul" -> <<Lead(op.ml, Each2(Grow(Prod(Block(Pad(i[1]), op.ml), Block(Pad(i[2]), op.ml))), Pad(o[1]), LAMBDA p, q : Lin(a, p, b, q)), Pad(o[1]))>>
    [] OTHER -> o
\* returned numbers
Answer(op, i, e) ==
  LET f == op.f
      a == op.s[1][1]
      b == op.s[2][1]
  IN
  CASE f = "inner" -> e.q = SumF(LAMBDA k : i[1][k][1] * i[2][k][1], Min2(Len(i[1]), Len(i[2])))
    [] f = "norm" -> NormOk(i[1], op.kind, e.q, e.w)
    [] f = "normc" -> NormOk(IF Len(i[1]) = 0 THEN <<>> ELSE Chunk(i[1], op.lo, op.hi), op.kind, e.q, e.w)
    [] f = "normd" -> NormOk(Diff(i[1], i[2]), op.kind, e.q, e.w)
    [] f = "maxabs" -> e.q = MaxDiff(i[1], i[2]) /\ e.at = Where(i[1], i[2])
    [] f = "maxsc" -> Near(e.q, MaxScaled(i[1], i[2], a), 2)
    [] f = "maxscd" -> Near(e.q, MaxScaled(Diff(i[1], i[2]), i[3], 1), 2)
    [] f \in {"rms", "rmsd"} /\ Len(i[1]) * (MaxF(LAMBDA k : Abs(i[1][k][1]) + Abs(i[2][k][1]), Len(i[1]))^2) > 2000 -> TRUE   \* too large for the fixed point
    [] f = "rms" -> Near(e.q, RmsSum(i[1], i[2], a, b), Len(i[1]) + 2)
    [] f = "rmsd" -> Near(e.q, RmsDiff(i[1], i[2], a, b), Len(i[1]) + 2)
    [] OTHER -> TRUE
Large(x, m) == LET s == Flat(x) IN \E k \in 1..Len(s) : Abs(s[k][1]) > m \/ Abs(s[k][2]) > m
\* beyond these sizes the exact integers of this model do not reach
Beyond(op, o, i) ==
  LET m == CASE op.f \in {"mul", "tmul", "syrk", "herk", "mv", "mvu", "vm", "outer", "outeru", "inner", "smul", "norm", "normc", "normd"} -> 1000
             [] op.f \in {"rms", "rmsd"} -> 20 [] op.f \in {"maxsc", "maxscd"} -> 900 [] OTHER -> 100000000
  IN \/ (op.f = "herk" /\ \E k \in 1..o[1].r : At(o[1], k, k)[2] # 0)   \* not Hermitian to begin with
     \/ (\E k \in 1..Len(o) : Large(o[k], 100000000)) \/ (\E k \in 1..Len(i) : Large(i[k], m))
=============================================================================
