--------------------------- MODULE LinSolverTrace ---------------------------
(* Validates recorded calls on real solver objects against LinSolver.         *)
EXTENDS LinSolver, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Mx(m) == Mat(m.nrow, m.ncol, 0, m.sym, m.trip)

SolveOk(f, e) ==
  LET n == IF f.k \in {"has", "lost"} THEN Len(f.a) ELSE 0
      dims == e.dx = n /\ Len(e.b) = n
  IN CASE f.k = "none" -> e.st = "err"
       [] f.k = "wild" -> TRUE
       [] f.k = "has" -> IF dims THEN e.st = "ok" /\ Solves(f.a, e.x, e.b, e.S) ELSE e.st = "err"
       [] f.k = "lost" -> e.st = "err" \/ (e.st = "ok" /\ dims /\ Solves(f.a, e.x, e.b, e.S))

Opt == IF Ev.p.given THEN Ev.p ELSE [given |-> FALSE, det |-> FALSE]
Matching == {o \in FactOutcomes(Mx(Ev.m), Opt) : o.st = Ev.st}

\* one-shot computation on a fresh solver
OneShot(e) ==
  LET m == Mx(e.m)
      a == Dense(m)
  IN IF ~Admissible(m) THEN e.st = "err"
     ELSE CASE Singular(a) = "yes" -> e.st = "err"
            [] Singular(a) = "any" -> TRUE
            [] Singular(a) = "no" -> IF e.dx = m.nrow /\ Len(e.b) = m.nrow THEN e.st = "ok" /\ Solves(a, e.x, e.b, e.S) ELSE e.st = "err"

Mod2(z) == z[1] * z[1] + z[2] * z[2]
MaxMod2(s) == MaxSeq([k \in 1..Len(s) |-> Mod2(s[k])])
VerifyOk(e) ==
  LET m == Mx(e.m)
      ax == MatVec(Dense(m), <<1, 0>>, e.x)
      df == [i \in 1..m.nrow |-> <<ax[i][1] - e.b[i][1], ax[i][2] - e.b[i][2]>>]
  IN IF Len(e.x) # m.ncol \/ Len(e.b) # m.nrow \/ m.trip = <<>> THEN e.st = "err"
     ELSE /\ e.st = "ok"
          /\ Near(e.a2, 1000 * MaxMod2([k \in 1..Len(m.trip) |-> m.trip[k][3]]), 1)
          /\ Near(e.ax2, 1000 * MaxMod2(ax), 1)
          /\ Near(e.d2, 1000 * MaxMod2(df), 1)
          /\ e.relok   \* ratio of the two reported numbers

DetOk(e) == (wdet /\ fac.k = "has" /\ Small(fac.a)) =>
  LET d == Det(fac.a) IN Near(e.det[1], 10 * d[1], 1 + Abs1(d) \div 100000) /\ Near(e.det[2], 10 * d[2], 1 + Abs1(d) \div 100000)

TInit == LInit /\ SInit /\ l = 1
TNext ==
  /\ l <= Len(Trace)
  /\ UNCHANGED svars
  /\ LET e == Ev IN
     CASE e.e = "reset" -> lock' = <<>> /\ fac' = None /\ wdet' = FALSE /\ l' = l + 1
       [] e.e = "fact" ->
            LET o == Matching IN
            IF o = {} THEN UNCHANGED lvars /\ PrintT(<<"MISMATCH", l>>) /\ l' = e.nx
            ELSE \E r \in {CHOOSE r \in o : TRUE} : lock' = r.lock /\ fac' = r.fac /\ wdet' = r.wdet /\ l' = l + 1
       [] OTHER ->
            /\ UNCHANGED lvars
            /\ IF CASE e.e = "solve" -> SolveOk(fac, e)
                    [] e.e = "det" -> DetOk(e)
                    [] e.e = "compute" -> OneShot(e)
                    [] e.e = "verify" -> VerifyOk(e)
                    [] e.e = "genie" -> (e.st = "ok") = (e.g = "umfpack")
               THEN l' = l + 1 ELSE PrintT(<<"MISMATCH", l>>) /\ l' = e.nx
  /\ (l' > Len(Trace) => PrintT(<<"TRACE-END", Len(Trace)>>))
=============================================================================
