---------------------------- MODULE SearchTrace -----------------------------
EXTENDS Search, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Unit15(k) == Pow(10, 15 - k)
Q15(q) == <<q * 250000, 0>>
\* a failing user function ends the search at once
Broken(e) == e.fail > 0 /\ e.n >= e.fail
Stopped(e) == e.st = "err" /\ e.n = e.fail
Counted(e, its) == IF e.stats = 1 THEN e.on = 1 /\ e.nf = e.n /\ e.ni = its ELSE e.on = 0
CountedF(e) == IF e.stats = 1 THEN e.on = 1 /\ e.nf = e.n ELSE e.on = 0

\* functions for which a hundred iterations are plenty
Tame(e) == e.max >= 100 /\ IF e.f = "root" THEN e.fun = "step" \/ (e.fun = "roots" /\ \A i, j \in 2..Len(e.c) : i # j => e.c[i] # e.c[j])
                          ELSE e.fun = "abs" /\ e.c[1] > 0
Root(e) ==
  IF e.a = e.b THEN e.st = "err" /\ e.n = 0
  ELSE IF Broken(e) THEN Stopped(e)
  ELSE /\ e.n >= 2 /\ e.ev[1].x = Q15(e.a) /\ e.ev[2].x = Q15(e.b)
       /\ IF ~Straddle(e.ev) THEN e.st = "err" /\ e.n = 2
          ELSE /\ Inside(e.ev, Ends(e.ev))
               /\ IF e.st = "ok" THEN RootFound(e.ev, e.x, e.xb, Unit15(e.tol)) /\ Counted(e, e.n - 1) /\ e.n <= e.max + 1
                  ELSE e.st = "err" /\ ~Tame(e) /\ e.n = e.max + 2 /\ Counted(e, e.max)
Minimum(e) ==
  IF e.a = e.b \/ e.max < 2 THEN e.st = "err" /\ e.n = 0
  ELSE IF Broken(e) THEN Stopped(e)
  ELSE LET lo == Q15(Min2(e.a, e.b))
           hi == Q15(Max2(e.a, e.b))
       IN /\ \A k \in 1..Len(e.ev) : lo[1] <= e.ev[k].x[1] /\ e.ev[k].x[1] <= hi[1] /\ (e.ev[k].x[1] = hi[1] => e.ev[k].x[2] <= 0)
          /\ IF e.st = "ok" THEN Lowest(e.ev, e.xb) /\ Enclosed(e.ev, e.x, e.xb, lo, hi, Unit15(e.tol)) /\ Counted(e, e.n) /\ e.n <= e.max
             ELSE e.st = "err" /\ ~Tame(e) /\ e.n = e.max + 1 /\ Counted(e, e.max)
Bracket(e) ==
  IF e.max < 2 THEN e.st = "err" /\ e.n = 0
  ELSE IF Broken(e) THEN Stopped(e)
  ELSE /\ e.n >= 3
       /\ Usable(e.ev) => LET s == Bracketing(e) IN s.ok /\ s.done = (e.st = "ok")
       /\ IF e.st = "ok" THEN Triple(e.p, e.q, e.r) /\ Reported(e.ev, e.p) /\ Reported(e.ev, e.q) /\ Reported(e.ev, e.r) /\ Counted(e, e.n - 2) /\ e.n <= e.max + 2
          ELSE e.st = "err" /\ e.n = e.max + 2 /\ Counted(e, e.max)
Cheb(e) ==
  LET sure == Sure(e.c, e.a, e.b)
      maybe == Maybe(e.c, e.a, e.b)
  IN /\ e.st = "ok" /\ e.inside
     /\ RootsFound(e.r, sure, maybe, 100)
     /\ e.ref = 1 => Len(e.rx) = Len(e.r) /\ \A k \in 1..Len(e.rx) : \E r \in sure \cup maybe : Near(e.rx[k], r, 2) /\ Near(e.r[k], r, 100)
     /\ e.ref = 1 => ~Broken(e)
     /\ e.ref = 0 => (Broken(e) => e.n = e.fail) /\ (e.nn <= 2 => Broken(e))
Refine(e) ==
  IF Len(e.g) = 0 \/ e.max = 0 THEN e.st = "err" /\ e.n = 0
  ELSE IF Broken(e) THEN Stopped(e)
  ELSE IF e.st = "ok" THEN Len(e.r) = Len(e.g) /\ \A k \in 1..Len(e.g) : Near(e.r[k], e.c[k + 1] * 50000000, 2)
  ELSE e.st = "err" /\ (e.max < 6 \/ Len(e.c) > 3)
Ok(e) ==
  CASE e.f = "root" -> Root(e)
    [] e.f = "min" -> Minimum(e)
    [] e.f = "bracket" -> Bracket(e)
    [] e.f = "cheb" -> Cheb(e)
    [] e.f = "refine" -> Refine(e)
Agrees == LET e == Ev IN IF e.e = "op" THEN Ok(e) ELSE e.e = "reset"
TInit == l = 1
TNext ==
  /\ l <= Len(Trace)
  /\ IF Agrees THEN l' = l + 1 ELSE PrintT(<<"MISMATCH", l>>) /\ l' = Ev.nx
  /\ (l' > Len(Trace) => PrintT(<<"TRACE-END", Len(Trace)>>))
=============================================================================
