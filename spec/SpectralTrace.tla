--------------------------- MODULE SpectralTrace ---------------------------
(* Validates recorded spectral solutions against Spectral.                    *)
EXTENDS Spectral, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
N(e) == e.gx * e.gy
I(e, m) == ((m - 1) % e.gx) + 1
J(e, m) == ((m - 1) \div e.gx) + 1
\* Chebyshev-Gauss-Lobatto points: ends at -1 and 1, ascending, three-term recurrence
Lobatto(c) ==
  LET n == Len(c) IN
  /\ c[1] = -Unit8 /\ c[n] = Unit8 /\ \A i \in 1..(n - 1) : c[i] < c[i + 1]
  /\ \A i \in 2..(n - 1) : Near(c[i + 1], -2 * FMul8(c[2], c[i]) - c[i - 1], 20)
PointsOk(e) ==
  LET n == N(e) IN
  /\ Len(e.x) = n /\ Len(e.y) = n
  /\ Lobatto(e.r) /\ Len(e.r) = e.gx
  /\ (e.kind # "1d" => Lobatto(e.s) /\ Len(e.s) = e.gy)
  /\ \A m \in 1..n :
       CASE e.kind = "1d" -> Near(2 * e.x[m], Doubled(e, e.r[m]), 60)
         [] e.kind = "2d" -> Near(2 * e.x[m], Doubled(e, e.r[I(e, m)]), 60) /\ Near(2 * e.y[m], DoubledY(e, e.s[J(e, m)]), 60)
         [] OTHER -> Near(4 * e.x[m], Mapped4(e, 1, e.r[I(e, m)], e.s[J(e, m)]), 200) /\ Near(4 * e.y[m], Mapped4(e, 2, e.r[I(e, m)], e.s[J(e, m)]), 200)
On(e, s, m) == CASE s = 1 -> I(e, m) = 1 [] s = 2 -> I(e, m) = e.gx [] s = 3 -> e.kind # "1d" /\ J(e, m) = 1 [] s = 4 -> e.kind # "1d" /\ J(e, m) = e.gy
Pres(e) == SelectSeq(Idx(N(e)), LAMBDA m : \E s \in 1..NSides(e) : e.sides[s] \in {"v", "b"} /\ On(e, s, m))
Close(e, p, v, div, tol) == Len(v) = N(e) /\ \A m \in 1..N(e) : Near(v[m], PValue(p, e.x[m], e.y[m], div), tol)
SpcOk(e) ==
  LET ps == Pres(e)
      np == Len(ps)
  IN
  /\ Consistent(e)
  /\ IF "per" \in DOMAIN e THEN e.st = "err"
     ELSE /\ e.st = "ok" /\ PointsOk(e)
          /\ e.ps = ps /\ e.dsps = <<N(e) - np, np>> /\ e.dlmm = <<N(e), np, N(e) + np>> /\ e.bad
          /\ (IF np = 0 THEN e.cc = 0 ELSE {e.cc[k] : k \in 1..Len(e.cc)} = {<<k, ps[k], 1>> : k \in 1..np} /\ Len(e.cc) = np)
          /\ IF ~WellSet(e) THEN e.s1.st = "err" /\ e.s2.st = "err"
             ELSE Determined(e) =>
                  /\ e.s1.st = "ok" /\ Close(e, e.phi, e.s1.a, 100, 30)
                  /\ e.s2.st = "ok" /\ Close(e, e.phi, e.s2.a, 100, 30)
                  /\ Close(e, PScale(-e.k[1], PDx(e.phi)), e.wx, 1000, 60)
                  /\ (e.kind # "1d" => Close(e, PScale(-e.k[2], PDy(e.phi)), e.wy, 1000, 60))
Agrees == LET e == Ev IN IF e.e = "spc" THEN SpcOk(e) ELSE e.e = "reset"
TInit == l = 1
TNext ==
  /\ l <= Len(Trace)
  /\ IF Agrees THEN l' = l + 1 ELSE PrintT(<<"MISMATCH", l>>) /\ l' = Ev.nx
  /\ (l' > Len(Trace) => PrintT(<<"TRACE-END", Len(Trace)>>))
=============================================================================
