----------------------------- MODULE TextTrace ------------------------------
EXTENDS Text, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
UlpNear(a, b, n) == a[1] = b[1] /\ Abs(a[2] - b[2]) <= 1 /\ Abs((a[2] - b[2]) * 2097152 + a[3] - b[3]) <= n
Cells(a) == FoldLeft(LAMBDA acc, r : acc \o r, << >>, a)
Q(v) == v[1] \div 25      \* quarters from hundredths

Table(e) == LET lab == e.f = "table" /\ e.lab > 0 IN
  IF lab /\ ~Distinct(e.labels) THEN e.st # "panic"
  ELSE IF TableFails(e.lines, lab, IF lab THEN e.labels ELSE << >>) THEN e.st = "err"
  ELSE e.st = "ok" /\ TableGives(e.lines, e.cols)
Mat(e) == IF MatFails(e.lines) THEN e.st = "err"
  ELSE e.st = "ok" /\ e.v = MatGives(e.lines) /\ e.m = Len(e.v) /\ (e.m > 0 => e.n = Len(e.v[1]))
Dump(e) == LET m == Len(e.a)
               n == Len(e.a[1])
               dims == DumpDims(e.lang, m, n)
               k == Len(dims)
           IN /\ e.st = "ok" /\ Plain(e.t) = DumpTokens(e.lang, e.name, m, n)
              /\ \A i \in 1..k : e.x[i] = dims[i]
              /\ Len(e.n) = k + Len(e.ab)
              /\ \A i \in 1..Len(e.ab) : UlpNear(e.n[k + i], e.ab[i], IF e.lang \in {"mathematica", "numpy"} THEN 0 ELSE 5)
Vis(e) == IF e.tol[1] < 0 THEN e.st = "err"
  ELSE LET m == Len(e.a)
           n == Len(e.a[1])
           want == {<<i - 1, j - 1, Q(e.a[i][j])>> : <<i, j>> \in {c \in (1..m) \X (1..n) : Abs(e.a[c[1]][c[2]][1]) > e.tol[1]}}
       IN /\ e.st = "ok" /\ Len(e.lines) = Cardinality(want) + 1
          /\ e.lines[1] = <<m, n, Cardinality(want)>>
          /\ {e.lines[k] : k \in 2..Len(e.lines)} = want
\* a number m * 10^x in scientific notation; not finite: a word
SciItem(o, x, b, p) == SciOk(o, x[1], x[2], p) /\ (p > 14 => UlpNear(o.rb, b, 5))
Sci(e) == e.st = "ok" /\
  IF Len(e.x) = 3 THEN e.o.k = "word" /\ e.o.w = e.x[3] /\ e.o.len = Max2(e.w, Len(e.x[3]))
  ELSE SciItem(e.o, e.x, e.ab, e.p) /\ Wide(e.o, e.w, SciLen(e.o))
Plainly(o, x, b, p) == IF p < 0 THEN o.k = "dec" /\ o.rb = b ELSE DecOk(o, x[1], x[2], p)
Number(e) == e.st = "ok" /\ Plainly(e.o, e.x, e.ab, e.p) /\ Wide(e.o, e.w, DecLen(e.o))
VFmt(e) == LET r == Len(e.a) IN e.st = "ok" /\
  IF r = 0 THEN e.fr = "[]"
  ELSE FrameOk(e, r) /\ \A i \in 1..r : Len(e.lines[i + 1]) = 1 /\
    LET o == e.lines[i + 1][1] IN IF Len(e.a[i]) = 3 THEN o.k = "word" /\ o.w = "inf" ELSE SciItem(o, e.a[i], e.ab[i], e.p)
Disp(e) == LET r == Len(e.a) IN e.st = "ok" /\
  IF r = 0 THEN e.fr = "[]"
  ELSE IF Len(e.a[1]) = 0 THEN e.fr = "[]"
  ELSE FrameOk(e, r) /\ \A i \in 1..r : Len(e.lines[i + 1]) = Len(e.a[i]) /\
    \A j \in 1..Len(e.a[i]) : Plainly(e.lines[i + 1][j], e.a[i][j], e.ab[i][j], e.p)

Ok(e) ==
  CASE e.f \in {"table", "itable"} -> Table(e)
    [] e.f = "mat" -> Mat(e)
    [] e.f = "dump" -> Dump(e)
    [] e.f = "vis" -> Vis(e)
    [] e.f = "sci" -> Sci(e)
    [] e.f = "num" -> Number(e)
    [] e.f = "vfmt" -> VFmt(e)
    [] e.f = "disp" -> Disp(e)
    [] e.f = "ns" -> e.st = "ok" /\ DurationOk(e.o, e, e.d)
    [] e.f = "watch" -> e.st = "ok" /\ WatchOk(e.out)
Agrees == LET e == Ev IN IF e.e = "op" THEN Ok(e) ELSE e.e = "reset"
TInit == l = 1
TNext ==
  /\ l <= Len(Trace)
  /\ IF Agrees THEN l' = l + 1 ELSE PrintT(<<"MISMATCH", l>>) /\ l' = Ev.nx
  /\ (l' > Len(Trace) => PrintT(<<"TRACE-END", Len(Trace)>>))
=============================================================================
