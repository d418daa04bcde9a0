------------------------------ MODULE OdeTrace ------------------------------
(* Validates recorded runs of real integrators against OdeRun and OdeValues. *)
EXTENDS OdeValues, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, mode, sv, cfg, steps, dens, pa, memo
vars == <<l, mode, sv, cfg, steps, dens, pa, memo>>
Ev == Trace[l]

NoRun == <<>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Config(e) ==
  LET s == sv[e.s]
  IN [n |-> s.prob.n, m |-> s.m, prob |-> s.prob, par |-> s.par, o |-> IF Has(e, "oslot") THEN e.out ELSE <<>>] @@ e

\* both matrices of a system are stored in the same way
MassSym(p) == IF Has(p, "msym") THEN p.msym ELSE p.sym
Mixed(p) == Has(p, "mass") /\ p.jac = "ana" /\ MassSym(p) # p.sym
NewOk(e) == e.st = (IF Mixed(e.prob) \/ (Has(e.prob, "mass") /\ e.m # "Radau5") THEN "err" ELSE "ok")
\* the linear solver takes no triangular storage (a run may end before it needs the solver)
Triangular(c) == c.m \in Implicit /\ (\/ c.prob.jac = "ana" /\ c.prob.sym \in {"lower", "upper"}
                                      \/ Has(c.prob, "mass") /\ MassSym(c.prob) \in {"lower", "upper"})

StepOk(e) ==
  IF Len(steps) = 0 THEN FirstAllowed(cfg, e)
  ELSE LET p == steps[Len(steps)]
       IN /\ StepAllowed(cfg, p, e, pa)
          /\ CallsInside(cfg, p, e)
          /\ Contractive(cfg, p, e)
          /\ (cfg.m \notin Implicit => e.nf = e.of)

DenseOk(e) ==
  LET k == Len(dens) + 1
      fs == DenseStations(cfg)
  IN /\ k <= Len(fs)
     /\ Near(e.x, StationX(fs[k]), 5)
     /\ (k = 1 => e.yb = cfg.y0b)
     /\ (Len(steps) > 0 => e.x <= steps[Len(steps)].x + 3)
     /\ (Len(steps) > 1 /\ k > 1 /\ k < Len(fs) => e.x >= steps[Len(steps) - 1].x - 3)
     /\ (mode = "B" => DenseValueOk(cfg, fs[k], e.y))

(* ---------------- end of a run ---------------- *)
Callback(c) == c.o # <<>> /\ c.o.cb = 1
DenseCb(c) == c.o # <<>> /\ c.o.dcb = 1
Hit(n, m) == n > 0 /\ m >= n

NumericJac(c) == c.m \in Implicit /\ (c.par.numjac = 1 \/ c.prob.jac = "num")
Counters(c, e) ==
  /\ e.of = e.nf + (IF NumericJac(c) THEN e.nj ELSE 0)
  /\ (c.m \in Implicit /\ ~NumericJac(c) => e.oj = e.nj)
  /\ (c.m \notin Implicit => e.nj = 0 /\ e.nfac = 0 /\ e.nls = 0 /\ e.oj = 0)
  /\ e.na <= e.ns /\ e.nr <= e.ns - e.na
  /\ (Fixed(c) => e.nr = 0)
  /\ (c.m \in Embedded /\ ~Fixed(c) => e.ns <= c.par.nmax)

Recorded(c, e, stopped) ==
  LET k == IF stopped THEN Len(steps) - 1 ELSE Len(steps)
  IN /\ (c.o.rec = 1 => /\ Len(e.rh) = Len(e.rx)
                        /\ \A m \in 1..c.n : Len(e.ry[m]) = Len(e.rx)
                        /\ (Len(e.rx) > 0 => e.rx[1] = c.x0b /\ \A m \in 1..c.n : e.ry[m][1] = c.y0b[m]))
     /\ (c.o.rec = 1 /\ Callback(c) /\ (e.st = "ok" \/ stopped) =>
            /\ Len(e.rx) = k
            /\ \A j \in 1..k : e.rx[j] = steps[j].xb /\ e.rh[j] = steps[j].hb /\ \A m \in 1..c.n : e.ry[m][j] = steps[j].yb[m]
            /\ (Has(c.o, "yx") => Len(e.rg) = k /\ \A j \in 1..k :
                  LET g == MaxSeq([m \in 1..c.n |-> Abs(steps[j].y[m] - c.ysc * c.o.yx)]) IN
                  \/ Near(e.rg[j], g, 1)
                  \/ g >= 1899999990 /\ e.rg[j] = 2000000000   \* cut off in the log
                  \/ \E m \in 1..c.n : Abs(steps[j].y[m]) = 2000000000))
     /\ (c.o.rec = 1 /\ ~stopped /\ e.st = "ok" => Len(e.rx) = e.na + 1 /\ \A m \in 1..c.n : e.ry[m][Len(e.rx)] = e.yb[m])
     /\ (c.par.stiff = 0 => e.stn = <<0, 0, 0>>)
     /\ e.stn[1] = e.stn[2] /\ e.stn[1] <= e.stn[3] /\ e.stn[3] <= e.na + 1

DenseRecorded(c, e, stopped) ==
  LET fs == DenseStations(c)
      n == Len(fs)
      k == IF stopped \/ e.st # "ok" THEN Len(dens) - 1 ELSE Len(dens)
  IN /\ (DenseCb(c) /\ e.st = "ok" /\ ~stopped => Len(dens) = n /\ dens[n].yb = e.yb)
     /\ (c.o.drec = 1 =>
           /\ Len(e.dx) = n
           /\ \A j \in 1..n : Near(e.dx[j], StationX(fs[j]), 5)
           /\ \A m \in 1..c.n : Len(e.dy[m]) = n
           /\ (DenseCb(c) => \A j \in 1..k, m \in 1..c.n : e.dy[m][j] = dens[j].yb[m])
           /\ (e.st = "ok" /\ ~stopped =>
                 /\ \A m \in 1..c.n : e.dy[m][1] = c.y0b[m] /\ e.dy[m][n] = e.yb[m]
                 /\ (mode = "F" => DenseOrderOk(c, fs, e.dys, DenseBound[c.m]))
                 /\ (mode = "B" => \A j \in 1..n : DenseValueOk(c, fs[j], [m \in 1..c.n |-> e.dys[m][j]])))
           \* stations not reached hold nothing of an earlier run
           /\ (DenseCb(c) /\ (stopped \/ e.st # "ok") => \A j \in (Len(dens) + 1)..n, m \in 1..c.n : e.dys[m][j] = 0))

\* files hold decimal numbers: equal up to the last binary digits
UlpNear(a, b) ==
  LET d1 == a[1] - b[1]
      d2 == d1 * 2097152 + (a[2] - b[2])
  IN d1 \in -1..1 /\ d2 \in -1..1 /\ d2 * 2097152 + (a[3] - b[3]) \in -4..4
VecNear(u, v) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : UlpNear(u[i], v[i])
Files(c, e) == c.o.file = 1 =>
  /\ e.fs.n = e.na + 1
  /\ UlpNear(e.fs.x[1], c.x0b) /\ VecNear(e.fs.y[e.fs.n], e.yb)
  /\ (Callback(c) => \A j \in 1..e.fs.n : UlpNear(e.fs.x[j], steps[j].xb) /\ VecNear(e.fs.y[j], steps[j].yb))
  /\ (Has(c.o, "dh") \/ Has(c.o, "dx") =>
        /\ e.fd.n = Len(DenseStations(c))
        /\ VecNear(e.fd.y[e.fd.n], e.yb) /\ VecNear(e.fd.y[1], c.y0b)
        /\ (c.o.drec = 1 => \A j \in 1..e.fd.n, m \in 1..c.n : UlpNear(e.fd.y[j][m], e.dy[m][j])))

Complete(c, e) ==
  /\ e.fin
  /\ e.na >= 1
  /\ (Callback(c) => LET p == steps[Len(steps)] IN Len(steps) = e.na + 1 /\ Near(p.x, c.x1s, 2) /\ p.yb = e.yb)
  /\ (Fixed(c) => e.ns = e.na /\ e.na \in NFixed(c))
  /\ (c.m \notin Embedded /\ ~Fixed(c) => e.na = 10)

EndOk(e) ==
  LET c == cfg
      uf == Hit(Get(c, "fail"), e.of)
      uj == Hit(Get(c, "failj"), e.oj)
      us == Hit(Get(c, "serr"), Len(steps))
      ud == Hit(Get(c, "derr"), Len(dens))
      ss == Hit(Get(c, "stop"), Len(steps))
      \* at the final station there is nothing left to stop
      sd == Hit(Get(c, "dstop"), Len(dens)) /\ Len(dens) < Len(DenseStations(c))
      un == Hit(Get(c, "nan"), e.of)
      rest == CallsInside(c, IF steps = <<>> THEN [x |-> c.x0s] ELSE steps[Len(steps)], e)
  IN /\ e.st # "panic"
     /\ IF Refused(c) THEN e.st = "err" /\ steps = <<>> /\ dens = <<>> /\ e.yb = c.y0b /\ e.of = 0
        ELSE IF Triangular(c) THEN e.st = "err" \/ e.nfac = 0
        ELSE
        /\ rest
        /\ (e.st = "ok" => e.fin)
        /\ CASE uf -> e.st = "err" /\ e.msg = "user function gave up" /\ e.of = c.fail
             [] uj -> e.st = "err" /\ e.msg = "user jacobian gave up" /\ e.oj = c.failj
             [] us -> e.st = "err" /\ e.msg = "step callback gave up" /\ Len(steps) = c.serr
             [] ud -> e.st = "err" /\ e.msg = "dense callback gave up" /\ Len(dens) = c.derr
             [] ss -> /\ e.st = "ok" /\ Len(steps) = c.stop /\ steps[Len(steps)].yb = e.yb
                      /\ Counters(c, e) /\ Recorded(c, e, TRUE)
             [] sd -> /\ e.st = "ok" /\ Len(dens) = c.dstop /\ Counters(c, e)
                      /\ DenseRecorded(c, e, TRUE)
             [] un -> (e.st = "ok" => Complete(c, e))
             [] OTHER ->
                  /\ IF e.st = "ok"
                     THEN /\ Complete(c, e) /\ Counters(c, e)
                          /\ (c.o # <<>> => Files(c, e))
                          /\ (mode = "D" => FinalOk(c, e.y))
                     ELSE \/ (~Fixed(c) /\ e.ns >= c.par.nmax /\ Counters(c, e))
                          \/ ~Tame(c)
                  /\ (c.o # <<>> => Recorded(c, e, FALSE))
                  /\ (c.o # <<>> /\ WantsDense(c) => DenseRecorded(c, e, FALSE))

Plain(c) == \A f \in {"fail", "failj", "nan", "stop", "serr", "dstop", "derr"} : Get(c, f) = 0
MemoKey(c) == <<c.key, Get(c, "dn")>>
Counts(e) == <<e.nf, e.nj, e.nfac, e.nls, e.ns, e.na, e.nr, e.nitm, e.hacc>>
\* the same run gives the same solution and the same counts, whatever came before
SameOk(e) == Has(cfg, "key") /\ Plain(cfg) =>
  /\ \A q \in memo : q.k[1] = cfg.key => q.st = e.st /\ q.y = e.yb
  /\ \A q \in memo : q.k = MemoKey(cfg) => q.c = Counts(e)
MemoNext(e) == IF Has(cfg, "key") /\ Plain(cfg) THEN memo \cup {[k |-> MemoKey(cfg), st |-> e.st, y |-> e.yb, c |-> Counts(e)]} ELSE memo

Bad == PrintT(<<"MISMATCH", l>>) /\ l' = Ev.nx
TInit == l = 1 /\ mode = "" /\ sv = <<>> /\ cfg = NoRun /\ steps = <<>> /\ dens = <<>> /\ pa = 1 /\ memo = {}
Idle == cfg' = NoRun /\ steps' = <<>> /\ dens' = <<>> /\ pa' = 1
TNext ==
  /\ l <= Len(Trace)
  /\ LET e == Ev IN
     CASE e.e = "reset" -> mode' = e.mode /\ sv' = <<>> /\ memo' = {} /\ Idle /\ l' = l + 1
       [] e.e = "new" -> /\ UNCHANGED <<mode, cfg, steps, dens, pa, memo>>
                         /\ sv' = Put(sv, e.s, [m |-> e.m, prob |-> e.prob, par |-> e.par])
                         /\ IF NewOk(e) THEN l' = (IF e.st = "ok" THEN l + 1 ELSE e.nx) ELSE Bad
       [] e.e = "upd" -> /\ UNCHANGED <<mode, cfg, steps, dens, pa, memo>>
                         /\ sv' = [sv EXCEPT ![e.s].par = e.par]
                         /\ IF e.st = "ok" THEN l' = l + 1 ELSE Bad
       [] e.e = "run" -> /\ UNCHANGED <<mode, sv, memo>>
                         /\ cfg' = Config(e) /\ steps' = <<>> /\ dens' = <<>> /\ pa' = 1
                         /\ IF e.st = (IF Config(e).o # <<>> /\ ~ListAscending(Config(e)) THEN "err" ELSE "ok")
                            THEN l' = (IF e.st = "ok" THEN l + 1 ELSE e.nx) ELSE Bad
       [] e.e = "step" -> /\ UNCHANGED <<mode, sv, cfg, dens, memo>>
                          /\ steps' = Append(steps, e)
                          /\ pa' = IF steps = <<>> THEN 1 ELSE e.ns - steps[Len(steps)].ns
                          /\ IF StepOk(e) THEN l' = l + 1 ELSE Bad
       [] e.e = "dense" -> /\ UNCHANGED <<mode, sv, cfg, steps, pa, memo>>
                           /\ dens' = Append(dens, e)
                           /\ IF DenseOk(e) THEN l' = l + 1 ELSE Bad
       [] e.e = "dord" -> /\ UNCHANGED <<mode, sv, cfg, steps, dens, pa, memo>>
                          /\ LET c == Config(e) IN IF DenseOrderOk(c, DenseStations(c), e.dys, DenseBound7) THEN l' = l + 1 ELSE Bad
       [] e.e = "end" -> /\ UNCHANGED <<mode, sv>> /\ Idle
                         /\ memo' = MemoNext(e)
                         /\ IF EndOk(e) /\ SameOk(e) THEN l' = l + 1 ELSE Bad
  /\ (l' > Len(Trace) => PrintT(<<"TRACE-END", Len(Trace)>>))
=============================================================================
