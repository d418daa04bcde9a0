---------------------------- MODULE MappingTrace ----------------------------
(* Validates recorded maps, triangulations, samples and metrics.              *)
EXTENDS Mapping, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, met
Ev == Trace[l]
MapOk(e) ==
  IF \E k \in 1..(IF e.d2 = 1 THEN 3 ELSE 2) : e.n[k] # 2 * e.dim THEN e.st = "err"
  ELSE LET f == First(e.dim)
           g == Second(e.dim)
       IN /\ e.st = "ok" /\ Len(e.at) = Len(e.pts)
          /\ \A i \in 1..Len(e.pts) :
               LET m == e.pts[i]
                   a == e.at[i]
                   v == Vec(e.terms, e.dim, Zero3, m)
               IN /\ a.p = v /\ a.x = v /\ a.same
                  /\ Len(a.d) = Len(f) /\ \A k \in 1..Len(f) : a.d[k] = Vec(e.terms, e.dim, f[k], m)
                  /\ Len(a.dd) = Len(g) /\ \A k \in 1..Len(g) : a.dd[k] = Vec(e.terms, e.dim, g[k], m)
          /\ e.cor = [c \in 1..Len(Corner(e.dim)) |-> Vec(e.terms, e.dim, Zero3, Corner(e.dim)[c])]
\* reference points along an axis: ends, order, spacing or three-term recurrence
Axis(c, cgl) ==
  LET n == Len(c) IN
  /\ c[1] = -Unit8 /\ c[n] = Unit8
  /\ \A i \in 1..(n - 1) : c[i] < c[i + 1]
  /\ IF cgl THEN \A i \in 2..(n - 1) : Near(c[i + 1], -2 * FMul8(c[2], c[i]) - c[i - 1], 30)
     ELSE \A i \in 1..n : Near(c[i], -Unit8 + ((2 * (i - 1) * (Unit8 \div 100)) \div (n - 1)) * 100, 400)
TriOk(e) ==
  LET n == e.nr * e.ns
      sx == e.terms[1][1][4]
      sy == e.terms[2][1][4]
      ref(v, s, c) == RoundDiv(v - c * Unit8, Abs(s)) * (IF s < 0 THEN -1 ELSE 1)
      rx(i) == ref(e.x[i], sx, e.terms[1][2][4])
      ry(j) == ref(e.y[(j - 1) * e.nr + 1], sy, e.terms[2][2][4])
      cells == (e.nr - 1) * (e.ns - 1)
      one(t) == LET c == (t - 1) \div 2
                    a == (c % (e.nr - 1)) + (c \div (e.nr - 1)) * e.nr
                IN IF t % 2 = 1 THEN <<a, a + 1, a + e.nr + 1>> ELSE <<a, a + e.nr + 1, a + e.nr>>
      Turn(q) == LET k == CHOOSE k \in 1..3 : \A h \in 1..3 : q[k] <= q[h] IN <<q[k], q[(k % 3) + 1], q[((k + 1) % 3) + 1]>>
  IN /\ e.st = "ok" /\ Len(e.x) = n /\ Len(e.y) = n
     /\ \A m \in 1..n : Near(e.x[m], e.x[((m - 1) % e.nr) + 1], 4) /\ Near(e.y[m], e.y[((m - 1) \div e.nr) * e.nr + 1], 4)
     /\ Axis([i \in 1..e.nr |-> rx(i)], e.cr = 1) /\ Axis([j \in 1..e.ns |-> ry(j)], e.cs = 1)
     /\ Len(e.tr) = 2 * cells
     \* every cell split along its first diagonal, both halves turning the same way
     /\ {Turn(e.tr[t]) : t \in 1..Len(e.tr)} = {Turn(one(t)) : t \in 1..(2 * cells)}
Close(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)
SampOk(e) ==
  LET dim == SDim(e.kind)
      f == First(dim)
      g == Second(dim)
      tol == Tol(e.kind)
      val(k, m) == Sample(e.kind, e.par, k, m)
  IN /\ e.st = "ok" /\ Len(e.at) = Len(e.pts)
     /\ \A i \in 1..Len(e.pts) :
          LET m == e.pts[i]
              a == e.at[i]
          IN /\ Close(a.p, val(Zero3, m), tol) /\ Close(a.x, val(Zero3, m), tol) /\ a.same
             /\ \A k \in 1..Len(f) : Close(a.d[k], val(f[k], m), tol)
             /\ \A k \in 1..Len(g) : Close(a.dd[k], val(g[k], m), 2 * tol)
     /\ Len(e.cor) = Len(Corner(dim)) /\ \A c \in 1..Len(e.cor) : Close(e.cor[c], val(Zero3, Corner(dim)[c]), tol)
Refused(e) == e.call # met.dim \/ (\E k \in 1..Len(e.d) : Len(e.d[k]) # e.call) \/ (met.hom = 0 /\ \E k \in 1..Len(e.dd) : e.dd[k] = <<>>)
MetOk(e) ==
  IF Refused(e) THEN e.st = "err"
  ELSE LET n == met.dim
           g == TLCEval(Gram(e.d))
           c == TLCEval(Cof(g))
           d == Det(g)
           ctr == TLCEval([i \in 1..n |-> [a \in 1..n |-> SumF(LAMBDA j : c[i][j] * e.d[j][a], n)]])
           ch == TLCEval([k \in 1..n |-> [i \in 1..n |-> [j \in 1..n |-> Dot(e.dd[Pair(n, i, j)], ctr[k])]]])
       IN IF d = 0 THEN e.st = "err"
          ELSE /\ e.st = "ok" /\ e.g = d /\ e.cov = e.d /\ e.gm = g /\ e.gg = c /\ e.ctr = ctr
               /\ (met.hom = 0 => /\ e.ch = ch
                                  /\ e.ell = [k \in 1..n |-> SumF(LAMBDA i : SumF(LAMBDA j : ch[k][i][j] * c[i][j], n), n)])
Agrees == LET e == Ev IN
  CASE e.e = "map" -> MapOk(e) [] e.e = "tri" -> TriOk(e) [] e.e = "samp" -> SampOk(e)
    [] e.e = "met" -> MetOk(e) [] OTHER -> e.e \in {"reset", "mnew"}
TInit == l = 1 /\ met = [dim |-> 0, hom |-> 0]
TNext ==
  /\ l <= Len(Trace)
  /\ IF Agrees
     THEN /\ l' = l + 1
          /\ met' = IF Ev.e = "mnew" THEN [dim |-> Ev.dim, hom |-> Ev.hom] ELSE met
          /\ (l' > Len(Trace) => PrintT(<<"TRACE-END", Len(Trace)>>))
     ELSE /\ PrintT(<<"MISMATCH", l>>) /\ l' = Ev.nx /\ UNCHANGED met
          /\ (l' > Len(Trace) => PrintT(<<"TRACE-END", Len(Trace)>>))
=============================================================================
