------------------------------ MODULE PdeTrace ------------------------------
(* Validates recorded numberings, grids, boundary settings and              *)
(* finite-difference systems against Pde.                                    *)
EXTENDS Pde, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, prop, neq
Ev == Trace[l]
Is(p, c) == prop = p => c
ToSet1(s) == {s[k] : k \in 1..Len(s)}
SameNumbering(r, n, ps) == LET w == Numbering(n, ps) IN
  /\ r.neq = w.neq /\ r.nu = w.nu /\ r.np = w.np /\ r.us = w.us /\ r.ps = w.ps /\ r.iu = w.iu /\ r.ip = w.ip

(* ---------------- grids ---------------- *)
AxisOk(e, v, n) == CASE e.k = "uni" -> n >= 2 /\ v[2] > v[1]
                     [] e.k = "list" -> Len(v) >= 2 /\ \A i \in 2..Len(v) : v[i] > v[i - 1]
                     [] OTHER -> n >= 2
SizeOf(e, v, n) == IF e.k = "list" THEN Len(v) ELSE n
\* the recorded coordinates c of one axis
CoordsOk(e, v, n, c) ==
  CASE e.k = "uni" -> /\ \A i \in 1..n : Near(c[i] * (n - 1), 10000 * (v[1] * (n - 1) + (i - 1) * (v[2] - v[1])), n)
    [] e.k = "list" -> \A i \in 1..n : c[i] = 10000 * v[i]
    [] OTHER -> /\ c[1] = -Unit8 /\ c[n] = Unit8 /\ \A i \in 1..(n - 1) : c[i] < c[i + 1]
                /\ \A i \in 2..(n - 1) : Near(c[i + 1], -2 * FMul8(c[2], c[i]) - c[i - 1], 20) /\ c[i] = -c[n + 1 - i]
\* uniform spacing, scaled: -1 if there is none
SpacingOk(e, v, n, c, d) ==
  CASE e.k = "uni" -> Near(d * (n - 1), 10000 * (v[2] - v[1]), n)
    [] e.k = "list" -> IF \A i \in 3..n : v[i] - v[i - 1] = v[2] - v[1] THEN Near(d, 10000 * (v[2] - v[1]), 1) ELSE d = -1
    [] OTHER -> IF n <= 3 THEN Near(d, c[2] - c[1], 1) ELSE d = -1

Grid1Ok(e) ==
  LET n == SizeOf(e, e.x, e.gx) IN
  IF ~AxisOk(e, e.x, e.gx) THEN e.st = "err"
  ELSE /\ e.st = "ok" /\ e.rnx = n /\ Len(e.cx) = n
       /\ CoordsOk(e, e.x, n, e.cx)
       /\ e.walk = [m \in 1..n |-> <<m, e.cx[m]>>]
       /\ e.ix = [m \in 1..n |-> <<m = 1, m = n, m = 1 \/ m = n>>]
       /\ e.sd = << <<1>>, <<n>> >> /\ e.bd = e.sd
       /\ SpacingOk(e, e.x, n, e.cx, e.dx)
Grid2Ok(e) ==
  LET nx == SizeOf(e, e.x, e.gx)
      ny == SizeOf(e, e.y, e.gy)
      n == nx * ny
      cx == [i \in 1..nx |-> e.co[i][1]]
      cy == [j \in 1..ny |-> e.co[At(nx, 1, j)][2]]
      lists == [s \in 1..4 |-> Ascending(n, SideNodes(nx, ny, s))]
  IN
  IF ~(AxisOk(e, e.x, e.gx) /\ AxisOk(e, e.y, e.gy)) THEN e.st = "err"
  ELSE /\ e.st = "ok" /\ e.rnx = nx /\ e.rny = ny /\ e.size = n /\ Len(e.co) = n
       /\ CoordsOk(e, e.x, nx, cx) /\ CoordsOk(e, e.y, ny, cy)
       /\ \A m \in 1..n : e.co[m] = <<cx[Px(nx, m)], cy[Py(nx, m)]>> /\ e.walk[m] = <<m, e.co[m][1], e.co[m][2]>>
       /\ Len(e.walk) = n
       /\ e.ij = [m \in 1..n |-> <<Px(nx, m), Py(nx, m), m>>]
       /\ e.ix = [m \in 1..n |-> LET s(k) == OnSide(nx, ny, k, m)
                                 IN <<s(1), s(2), s(3), s(4), s(1) \/ s(2) \/ s(3) \/ s(4), (s(1) \/ s(2)) /\ (s(3) \/ s(4))>>]
       /\ e.sd = lists /\ e.bd = lists /\ e.each = lists
       /\ \A k \in {1, 2} : Near(e.lim[k], IF k = 1 THEN cx[1] ELSE cx[nx], 1)
       /\ \A k \in {3, 4} : Near(e.lim[k], IF k = 3 THEN cy[1] ELSE cy[ny], 1)
       /\ e.cg = (e.k = "cgl")
       /\ LET none == e.dx = -1 /\ e.dy = -1
              okx == SpacingOk(e, e.x, nx, cx, e.dx)
              oky == SpacingOk(e, e.y, ny, cy, e.dy)
          IN IF none THEN SpacingOk(e, e.x, nx, cx, -1) \/ SpacingOk(e, e.y, ny, cy, -1) ELSE okx /\ oky

(* ---------------- boundary settings ---------------- *)
Next1(b, e) == CASE e.k = "set" -> SetValue(b, e.side + 1, e.c)
                 [] e.k = "nat" -> SetFlux(b, e.side + 1, e.c)
                 [] e.k = "hom" -> SetHomogeneous(b)
                 [] OTHER -> SetPeriodic(b, <<e.px, e.py>>)

(* ---------------- finite differences ---------------- *)
Problem(e, b) == LET g == e.grid
                     uni == g.k = "uni"
                 IN [nx |-> SizeOf(g, g.x, g.gx), ny |-> IF b.dim = 1 THEN 1 ELSE SizeOf(g, g.y, g.gy), px |-> e.pq[1], py |-> e.pq[2], q |-> e.pq[3],
                     kx |-> e.k[1], ky |-> e.k[2], al |-> e.al, x0 |-> g.x[1], y0 |-> g.y[1]]
UniformGrid(e, b) == e.grid.k = "uni" \/ (/\ \A i \in 2..Len(e.grid.x) : e.grid.x[i] - e.grid.x[i - 1] = e.pq[1]
                                          /\ (b.dim = 2 => \A i \in 2..Len(e.grid.y) : e.grid.y[i] - e.grid.y[i - 1] = e.pq[2]))
\* the matrix a recorded triplet list denotes; zero-sized parts are absent
Stored(c, i, j) == CASE c.sym = "lower" -> i >= j [] c.sym = "upper" -> i <= j [] OTHER -> TRUE
Same(c, m, n, sy, f(_, _)) ==
  /\ c.m = m /\ c.n = n /\ c.sym = sy
  /\ LET t == c.t
         acc == TLCEval(FoldLeft(LAMBDA a, x : [a EXCEPT ![x[1]][x[2]] = @ + x[3]], [i \in 1..m |-> [j \in 1..n |-> 0]], t))
     IN /\ \A k \in 1..Len(t) : Stored(c, t[k][1], t[k][2])
        /\ \A i \in 1..m : \A j \in 1..n : acc[i][j] = IF Stored(c, i, j) THEN f(i, j) ELSE 0
Absent(c) == c = 0
RowBound(r) == SumF(LAMBDA k : Abs(r[k]), Len(r))
\* the field a, in units of 1/s, satisfies the equations of the unknown points up to the rounding of the record
Solves(b, g, e, w, kk, a, s) ==
  LET amax == MaxSeq([k \in 1..Len(a) |-> Abs(a[k])])
  IN \A k \in 1..w.nu :
       LET m == w.us[k]
           rb == RowBound(kk[m])
           lhs == SumF(LAMBDA i : kk[m][i] * a[i], Len(a))                 \* scaled by 4 px^2 py^2 s
           f == Rhs(b, g, e.src, m)                                        \* scaled by 4 px py q^2
       IN rb * (amax \div s + 1) < 1000000000 \div s /\ Abs(f) < 200000000 \div (g.px * g.py * s)
          => Near(lhs, (f * g.px * g.py * s) \div (g.q * g.q), rb + 3 + rb * (amax \div 1000000))
\* prescribed value scaled by 1e6
ScaledValue(b, g, m) == LET v == FunAt(b, g, b.ef[Owner(b, g.nx, g.ny, m)], m)
                            d == g.q * g.q
                        IN (v \div d) * 1000000 + ((v % d) * 1000000) \div d
Field(b, g, e, w, kk, r) ==
  /\ r.st = "ok" /\ Len(r.a) = w.neq
  /\ \A k \in 1..w.np : Near(r.b[w.ps[k]], ScaledValue(b, g, w.ps[k]), 2)
  /\ Solves(b, g, e, w, kk, r.a, 10000) /\ Solves(b, g, e, w, kk, r.c, 100)
Regular(w, e) == w.np > 0 \/ e.al > 0

FdmOk(e, b) ==
  LET g == Problem(e, b)
      w == Numbering(g.nx * g.ny, Prescribed(b, g.nx, g.ny))
      kk == KMat(b, g)
      n == w.neq
      up(m) == w.us[m]
  IN
  IF ~UniformGrid(e, b) THEN e.st = "err"
  ELSE IF e.st # "ok" THEN FALSE
  ELSE
    /\ SameNumbering(e.eq, n, Prescribed(b, g.nx, g.ny))
    /\ e.dsps = <<w.nu, w.np>> /\ e.dlmm = <<n, w.np, n + w.np>>
    /\ Len(e.ac) = w.np /\ \A k \in 1..w.np : e.ac[k] = ValueAt(b, g, w.ps[k])
    /\ Len(e.join) = n
    /\ \A m \in 1..n : e.join[m] = IF w.ip[m] > 0 THEN e.ac[w.ip[m]] ELSE (999 + w.iu[m]) * e.rs
    /\ (~Valid(b) /\ e.solve = 1 => e.s1.st = "err" /\ e.s2.st = "err")
    /\ (Valid(b) => Is("D02",
         /\ LET p == Plain(b, g)
                acc == TLCEval(FoldLeft(LAMBDA a, x : [a EXCEPT ![x[1]][x[2]] = @ + x[3]], [i \in 1..n |-> [j \in 1..n |-> 0]], e.mol))
            IN acc = p
         /\ Len(e.ff) = n + w.np
         /\ \A k \in 1..w.nu : e.fb[k] = Rhs(b, g, e.src, w.us[k]) /\ e.ff[w.us[k]] = e.fb[k]
         /\ \A k \in 1..w.np : e.ff[n + k] = e.ac[k]
         /\ LET s == e.ks
                mm(i, j) == IF i <= n /\ j <= n THEN kk[i][j]
                            ELSE IF i <= n /\ j > n THEN (IF w.ip[i] = j - n THEN s ELSE 0)
                            ELSE IF i > n /\ j <= n THEN (IF w.ip[j] = i - n THEN s ELSE 0) ELSE 0
            IN Same(e.mm, n + w.np, n + w.np, e.sym, mm)
         /\ IF e.cons = 1 /\ w.np > 0 THEN Same(e.cc, w.np, n, "no", LAMBDA i, j : IF w.ip[j] = i THEN 1 ELSE 0) ELSE Absent(e.cc)
         /\ e.room = e.extra
         /\ (e.sps = 1 => /\ Same(e.kb, w.nu, w.nu, e.sym, LAMBDA i, j : kk[up(i)][up(j)])
                          /\ IF w.np = 0 THEN Absent(e.kc) ELSE Same(e.kc, w.nu, w.np, "no", LAMBDA i, j : kk[up(i)][w.ps[j]]))
         /\ (e.sps = 0 => w.nu = 0)
         /\ (e.solve = 1 /\ Regular(w, e) => Field(b, g, e, w, kk, e.s1) /\ Field(b, g, e, w, kk, e.s2))))

(* ---------------- trace ---------------- *)
Act ==
  LET e == Ev IN
  CASE e.e = "reset" -> bc' = NewBc(1) /\ neq' = 0 /\ prop' = e.prop
    [] e.e = "eqnew" -> neq' = e.n /\ UNCHANGED <<bc, prop>>
    [] e.e = "bcnew" -> bc' = NewBc(e.dim) /\ UNCHANGED <<neq, prop>>
    [] e.e = "bc" -> bc' = Next1(bc, e) /\ UNCHANGED <<neq, prop>>
    [] OTHER -> UNCHANGED <<bc, neq, prop>>
Agrees ==
  LET e == Ev IN
  CASE e.e = "eqnew" -> SameNumbering(e, e.n, {})
    [] e.e = "eqset" -> IF ToSet1(e.p) \subseteq 1..neq THEN e.st = "ok" /\ SameNumbering(e, neq, ToSet1(e.p)) ELSE e.st = "panic"
    [] e.e = "grid" -> IF e.dim = 1 THEN Grid1Ok(e) ELSE Grid2Ok(e)
    [] e.e = "bc" -> e.valid = Valid(bc')
    [] e.e = "fdm" -> FdmOk(e, bc)
    [] OTHER -> e.e = "reset" \/ e.e = "bcnew"
TInit == bc = NewBc(1) /\ neq = 0 /\ prop = "" /\ l = 1
TNext ==
  /\ l <= Len(Trace)
  /\ Act
  /\ IF Agrees THEN l' = l + 1 ELSE PrintT(<<"MISMATCH", l>>) /\ l' = Ev.nx
  /\ (l' > Len(Trace) => PrintT(<<"TRACE-END", Len(Trace)>>))
=============================================================================
