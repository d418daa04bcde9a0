-------------------------------- MODULE Pde --------------------------------
(* Grids, equation numbering, boundary settings and finite differences.      *)
(* Points and equations are numbered from 1; sides 1..4 are left, right,     *)
(* bottom, top.  Coordinates are integers over a common denominator.         *)
EXTENDS Base
VARIABLES bc      \* boundary setting: [dim, per, e, ef, n, nf]

(* ---------------- numbering ---------------- *)
\* ascending sequence of the members of s among 1..n
Ascending(n, s) == SelectSeq(Idx(n), LAMBDA k : k \in s)
Rank(s, k) == Cardinality({j \in s : j <= k})
Numbering(n, ps) ==
  LET p == ps \cap 1..n
      u == (1..n) \ p
  IN [neq |-> n, nu |-> Cardinality(u), np |-> Cardinality(p), us |-> Ascending(n, u), ps |-> Ascending(n, p),
      iu |-> [k \in 1..n |-> IF k \in u THEN Rank(u, k) ELSE 0], ip |-> [k \in 1..n |-> IF k \in p THEN Rank(p, k) ELSE 0]]

(* ---------------- topology ---------------- *)
Px(nx, m) == ((m - 1) % nx) + 1
Py(nx, m) == ((m - 1) \div nx) + 1
At(nx, i, j) == i + (j - 1) * nx
OnSide(nx, ny, s, m) == CASE s = 1 -> Px(nx, m) = 1 [] s = 2 -> Px(nx, m) = nx [] s = 3 -> Py(nx, m) = 1 [] s = 4 -> Py(nx, m) = ny
SideNodes(nx, ny, s) == {m \in 1..(nx * ny) : OnSide(nx, ny, s, m)}

(* ---------------- boundary settings ---------------- *)
Sides(dim) == 1..(2 * dim)
AxisOf(s) == (s + 1) \div 2
Zero == <<0, 0, 0>>
NewBc(dim) == [dim |-> dim, per |-> [a \in 1..dim |-> 0], e |-> [s \in Sides(dim) |-> 0], ef |-> [s \in Sides(dim) |-> Zero],
               n |-> [s \in Sides(dim) |-> 0], nf |-> [s \in Sides(dim) |-> Zero]]
SetValue(b, s, c) == [b EXCEPT !.e[s] = 1, !.ef[s] = c, !.per[AxisOf(s)] = 0]
SetFlux(b, s, c) == [b EXCEPT !.n[s] = 1, !.nf[s] = c]
SetPeriodic(b, p) == [b EXCEPT !.per = [a \in 1..b.dim |-> p[a]], !.e = [s \in Sides(b.dim) |-> IF p[AxisOf(s)] = 1 THEN 0 ELSE b.e[s]]]
SetHomogeneous(b) == [b EXCEPT !.per = [a \in 1..b.dim |-> 0], !.e = [s \in Sides(b.dim) |-> 1], !.ef = [s \in Sides(b.dim) |-> Zero]]
Valid(b) == \A s \in Sides(b.dim) : IF b.per[AxisOf(s)] = 1 THEN b.e[s] = 0 /\ b.n[s] = 0 ELSE b.e[s] + b.n[s] = 1
Prescribed(b, nx, ny) == {m \in 1..(nx * ny) : \E s \in Sides(b.dim) : b.e[s] = 1 /\ OnSide(nx, ny, s, m)}
\* the side whose function gives the value at a prescribed point (shared corners: the later side)
Owner(b, nx, ny, m) == CHOOSE s \in Sides(b.dim) : /\ b.e[s] = 1 /\ OnSide(nx, ny, s, m)
                                                   /\ \A t \in Sides(b.dim) : b.e[t] = 1 /\ OnSide(nx, ny, t, m) => t <= s

(* ---------------- finite differences ---------------- *)
\* problem g = [nx, ny, px, py, q, kx, ky, al, x0, y0]; spacings px/q and py/q; matrix scaled by 4 px^2 py^2
Wrap(b, a, n, i) == IF i >= 1 /\ i <= n THEN i
                    ELSE IF b.per[a] = 1 THEN (IF i < 1 THEN n ELSE 1) ELSE (IF i < 1 THEN 2 ELSE n - 1)
Cx(g) == 4 * g.kx * g.q * g.q * g.py * g.py
Cy(g, b) == IF b.dim = 1 THEN 0 ELSE 4 * g.ky * g.q * g.q * g.px * g.px
\* the molecule of point m: sequence of <<neighbour, coefficient>>
Molecule(b, g, m) ==
  LET i == Px(g.nx, m)
      j == Py(g.nx, m)
      xs == << <<m, 2 * (Cx(g) + Cy(g, b))>>, <<At(g.nx, Wrap(b, 1, g.nx, i - 1), j), -Cx(g)>>, <<At(g.nx, Wrap(b, 1, g.nx, i + 1), j), -Cx(g)>> >>
  IN IF b.dim = 1 THEN xs
     ELSE xs \o << <<At(g.nx, i, Wrap(b, 2, g.ny, j - 1)), -Cy(g, b)>>, <<At(g.nx, i, Wrap(b, 2, g.ny, j + 1)), -Cy(g, b)>> >>
\* divisor of the equation of point m: 2 for each boundary axis that is not periodic
Halves(b, g, m) == (IF b.per[1] = 0 /\ Px(g.nx, m) \in {1, g.nx} THEN 2 ELSE 1)
                   * (IF b.dim = 2 /\ b.per[b.dim] = 0 /\ Py(g.nx, m) \in {1, g.ny} THEN 2 ELSE 1)
Row(ml, n) == [k \in 1..n |-> SumF(LAMBDA i : IF ml[i][1] = k THEN ml[i][2] ELSE 0, Len(ml))]
Plain(b, g) == LET n == g.nx * g.ny IN TLCEval([m \in 1..n |-> Row(Molecule(b, g, m), n)])
KMat(b, g) ==
  LET n == g.nx * g.ny
      p == Plain(b, g)
      s == 4 * g.px * g.px * g.py * g.py
  IN TLCEval([m \in 1..n |-> LET h == Halves(b, g, m) IN [k \in 1..n |-> (p[m][k] + (IF k = m THEN g.al * s ELSE 0)) \div h]])

\* functions of position, scaled by q^2
Coef(c, k) == IF k <= Len(c) THEN c[k] ELSE 0
FunAt(b, g, c, m) ==
  LET x == g.x0 + g.px * (Px(g.nx, m) - 1)
      y == IF b.dim = 1 THEN 0 ELSE g.y0 + g.py * (Py(g.nx, m) - 1)
  IN Coef(c, 1) * g.q * g.q + Coef(c, 2) * x * g.q + Coef(c, 3) * y * g.q + Coef(c, 4) * x * y
\* right-hand side at an unknown point, scaled by 4 px py q^2: source over the divisor minus the outflow through flux sides
Rhs(b, g, src, m) ==
  LET h == Halves(b, g, m)
      corner == h = 4
      out(s) == IF b.per[AxisOf(s)] = 0 /\ OnSide(g.nx, g.ny, s, m) /\ b.n[s] = 1
                THEN FunAt(b, g, b.nf[s], m) * g.q * (IF corner THEN 2 ELSE 4) * (IF AxisOf(s) = 1 THEN g.py ELSE g.px)
                ELSE 0
  IN (FunAt(b, g, src, m) * 4 * g.px * g.py) \div h - SumF(out, 2 * b.dim)
ValueAt(b, g, m) == FunAt(b, g, b.ef[Owner(b, g.nx, g.ny, m)], m) * 4 * g.px * g.py
=============================================================================
