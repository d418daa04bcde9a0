---------------------------- MODULE FactorTrace ----------------------------
(* Validates recorded factorizations against Factor.                          *)
EXTENDS Factor, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Block(e) == Mat(e.n, e.n, LAMBDA i, j : e.a[i][j])
Err(e) == e.st = "err"
\* rounding may hide a zero pivot, except where elimination meets exact zeros
Hidden(a, closed) == ~(closed \/ Len(a) <= 2 \/ ZeroLine(a))
InvLike(e, a, closed, ok) == IF ~Singular(a) THEN e.st = "ok" /\ ok ELSE Err(e) \/ (Hidden(a, closed) /\ e.st = "ok")
Outside(e) == \A i \in 1..e.big : \A j \in 1..e.big : (i > e.n \/ j > e.n) => e.x[i][j] = <<7 * U6, 0>>
Vecs(e, v) == IF e.cx = 1 THEN v ELSE Unpack(v, e.sg)
GenOk(e) ==
  LET zero(j) == Abs(e.l[j][1]) + Abs(e.l[j][2]) + Abs(e.d[j][1]) + Abs(e.d[j][2]) < 1000    \* singular pencil: nothing is determined
      both == e.f = "genlr"
      v == Vecs(e, e.v)
      u == Vecs(e, e.u)
      ah == Adj(e.a)
      bh == Adj(e.b)
      lc == [k \in 1..e.n |-> Conj(e.l[k])]
      dc == [k \in 1..e.n |-> Conj(e.d[k])]
  IN (\E j \in 1..e.n : zero(j))
     \/ (/\ \A j \in 1..e.n : GenPair(e.a, e.b, e.l, e.d, v, j) /\ GenSized(v, j)
         /\ (both => \A j \in 1..e.n : GenPair(ah, bh, lc, dc, u, j) /\ GenSized(u, j))
         /\ Ratios(e.a, e.b, e.q))
OpOk(e) ==
  LET f == e.f IN
  IF e.st = "panic" THEN FALSE
  ELSE IF e.bad # 0 \/ (f \notin {"svd", "pinv"} /\ ~Square(e.a)) \/ (f = "solve" /\ Len(e.v) # Rows(e.a)) THEN Err(e)
  ELSE CASE f = "inv" -> InvLike(e, e.a, Len(e.a) <= 3, e.st = "ok" => InvOk(e.a, e.x)) /\ (e.st = "ok" => e.det = Det(e.a))
         [] f = "sinv" -> LET a == Block(e) IN
              InvLike(e, a, Len(a) <= 3, e.st = "ok" => InvOk(a, Mat(e.n, e.n, LAMBDA i, j : e.x[i][j]))) /\ (e.st = "ok" => e.det = Det(a) /\ Outside(e))
         [] f = "gji" -> InvLike(e, e.a, FALSE, e.st = "ok" => InvOk(e.a, e.x))
         [] f = "gjs" -> InvLike(e, e.a, FALSE, e.st = "ok" => InvOk(e.a, e.x) /\ SolOk(e.a, e.y, e.b))
         [] f = "ssol" -> InvLike(e, e.a, FALSE, e.st = "ok" => SolOk(e.a, e.y, [i \in 1..e.n |-> <<e.b[i][1]>>]))
         [] f = "solve" -> InvLike(e, e.a, FALSE, e.st = "ok" => SolOk(e.a, [i \in 1..e.n |-> <<e.y[i]>>], [i \in 1..e.n |-> <<e.v[i]>>]))
         [] f = "pinv" -> e.st = "ok" /\ PinvOk(e.a, e.x)
         [] f = "chol" -> LET d == Definite(Full(e.a, e.up)) IN
              (d = 1 => e.st = "ok") /\ (d = -1 => Err(e)) /\ (e.st = "ok" => CholOk(e.a, e.up, e.x))
         [] f = "svd" -> e.st = "ok" /\ SvdOk(e.a, e.l, e.u, e.v)
         [] f \in {"eig", "eiglr", "eigval"} -> e.st = "ok" /\ PowersOk(e.a, e.l) /\ (f # "eigval" => RightOk(e.a, e.l, e.v)) /\ (f = "eiglr" => LeftOk(e.a, e.l, e.u))
         [] f = "sym" -> e.st = "ok" /\ SymOk(Full(e.a, e.up), e.l, e.v, TRUE)
         [] f = "jacobi" -> e.st = "ok" /\ SymOk(e.a, e.l, e.v, FALSE)
         [] f \in {"gen", "genlr"} -> e.st = "ok" /\ GenOk(e)
Agrees == LET e == Ev IN IF e.e = "op" THEN OpOk(e) ELSE e.e = "reset"
TInit == l = 1
TNext ==
  /\ l <= Len(Trace)
  /\ IF Agrees THEN l' = l + 1 ELSE PrintT(<<"MISMATCH", l>>) /\ l' = Ev.nx
  /\ (l' > Len(Trace) => PrintT(<<"TRACE-END", Len(Trace)>>))
=============================================================================
