------------------------------- MODULE MC_Pde -------------------------------
(* Every short history of boundary settings on small grids: the numbering is *)
(* a partition, validity means one condition per side, the assembled matrix  *)
(* is symmetric, constants lie in its kernel and the prescribed points are   *)
(* exactly the points of the sides that have values.                         *)
EXTENDS Pde
CONSTANTS Depth
VARIABLES len
Fun == {<<1, 0, 0>>, <<0, 1, -1>>}
MCInit == len = 0 /\ \E d \in {1, 2} : bc = NewBc(d)
MCNext ==
  /\ len < Depth /\ len' = len + 1
  /\ \/ \E s \in Sides(bc.dim), c \in Fun : bc' = SetValue(bc, s, c)
     \/ \E s \in Sides(bc.dim) : bc' = SetFlux(bc, s, <<2, 0, 0>>)
     \/ \E p \in {0, 1} \X {0, 1} : bc' = SetPeriodic(bc, p)
     \/ bc' = SetHomogeneous(bc)
Grids == {[nx |-> a, ny |-> IF bc.dim = 1 THEN 1 ELSE b, px |-> 1, py |-> 2, q |-> 1, kx |-> 3, ky |-> 2, al |-> al, x0 |-> 0, y0 |-> -1]
            : a \in {2, 3}, b \in {2, 3}, al \in {0, 1}}
PeriodicSidesFree == \A s \in Sides(bc.dim) : bc.per[AxisOf(s)] = 1 => bc.e[s] = 0
Partition == \A g \in Grids :
  LET n == g.nx * g.ny
      w == Numbering(n, Prescribed(bc, g.nx, g.ny))
  IN /\ w.nu + w.np = n
     /\ \A k \in 1..w.nu : w.iu[w.us[k]] = k /\ w.ip[w.us[k]] = 0
     /\ \A k \in 1..w.np : w.ip[w.ps[k]] = k /\ w.iu[w.ps[k]] = 0
     /\ \A k \in 1..(w.nu - 1) : w.us[k] < w.us[k + 1]
Topology == \A g \in Grids : \A m \in 1..(g.nx * g.ny) : At(g.nx, Px(g.nx, m), Py(g.nx, m)) = m
Symmetric == Valid(bc) => \A g \in Grids : LET k == KMat(bc, g) IN \A i \in 1..Len(k) : \A j \in 1..i : k[i][j] = k[j][i]
Kernel == Valid(bc) => \A g \in {h \in Grids : h.al = 0} : LET k == KMat(bc, g) IN \A i \in 1..Len(k) : SumSeq(k[i]) = 0
\* a linear field satisfies every equation exactly when its own outflow is prescribed on the flux sides (no source)
Linear == (Valid(bc) /\ \A a \in 1..bc.dim : bc.per[a] = 0) => \A g \in {h \in Grids : h.al = 0} :
  LET k == KMat(bc, g)
      n == g.nx * g.ny
      f == [m \in 1..n |-> 2 * (g.x0 + g.px * (Px(g.nx, m) - 1)) - (IF bc.dim = 2 THEN g.y0 + g.py * (Py(g.nx, m) - 1) ELSE 0)]   \* 2 x - y
      out(s) == IF s = 1 THEN <<2 * g.kx>> ELSE IF s = 2 THEN <<-2 * g.kx>> ELSE IF s = 3 THEN <<-g.ky>> ELSE <<g.ky>>               \* -k grad f . n
      b2 == [bc EXCEPT !.nf = [s \in Sides(bc.dim) |-> out(s)]]
      pre == Prescribed(bc, g.nx, g.ny)
  IN \A m \in (1..n) \ pre : SumF(LAMBDA i : k[m][i] * f[i], n) = Rhs(b2, g, <<0>>, m) * g.px * g.py
\* the last setting of a side decides its value; later sides win at corners
CornerOwner == \A g \in Grids : \A m \in Prescribed(bc, g.nx, g.ny) : LET s == Owner(bc, g.nx, g.ny, m)
                 IN bc.e[s] = 1 /\ (bc.dim = 2 /\ bc.e[3] = 1 /\ OnSide(g.nx, g.ny, 3, m) => s >= 3)
MCSpec == MCInit /\ [][MCNext]_<<bc, len>>
=============================================================================
