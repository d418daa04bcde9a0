---------------------------- MODULE NonlinTrace ----------------------------
(* Validates recorded continuation runs of the real solvers.                 *)
EXTENDS NonlinRun, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, prop, sv, c, s, memo
vars == <<l, prop, sv, c, s, memo>>
Ev == Trace[l]
NoRun == <<>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Is(p, cond) == prop = p => cond

Config(e) == [cf |-> sv[e.s].cfg, sys |-> sv[e.s].sys] @@ e
Arc == c.cf.m = "arc"
Hooks == c.sys.hooks = 1
Plain == c.stop.k \in {"steps", "norm"}
State(e) == [ub |-> e.ub, lb |-> e.lb, u |-> e.u, l |-> e.l]
None == <<>>

\* ph: start, first, top, bak, prep, pred, iter, gg, jac, bad (attempt failed), term, acc, rest (restored), err, stop
Fresh(r) == [ph |-> IF r.cf.m = "arc" THEN "start" ELSE "first", cur |-> [ub |-> r.u0b, lb |-> r.l0b, u |-> r.u0s, l |-> r.l0s],
             tr |-> None, gg |-> None, jac |-> None, j0 |-> None, na |-> 0, att |-> 0, ata |-> 0, nrj |-> 0, nfail |-> 0, nprec |-> 0, it |-> 0, nf |-> 0, nj |-> 0,
             h |-> First(r), hk |-> FALSE, inc |-> 0, jd |-> FALSE, sec |-> <<r.u0b, r.l0b>>, bk |-> None, dir |-> None, why |-> "", recs |-> <<>>, failed |-> FALSE]

Same(x, e) == x.ub = e.ub /\ x.lb = e.lb
Conv == s.gg # None /\ s.gg.fin /\ ~LexGe(s.gg.rb, s.tolb)
\* a converged state that overshoots a target that must be hit precisely is given up
Overshoot == /\ Auto(c) /\ c.cf.prec = 1 /\ s.tr # None
             /\ \/ (c.stop.k = "maxu" /\ s.tr.u[c.stop.i] >= ScaledU(c.stop.v))
                \/ (c.stop.k = "minu" /\ s.tr.u[c.stop.i] <= ScaledU(c.stop.v))
Accepted == IF s.tr = None THEN FALSE ELSE
  \/ \E k \in 1..Len(s.tr.u) : Abs(s.tr.u[k]) >= 2000000000    \* cut off in the log
  \/ Abs(s.tr.l) >= 2000000000
  \/ SmallResidual(c.cf, s.gg.g)
  \/ s.jac # None /\ SmallCorrection(c.cf, s.gg.g, s.jac.j, s.cur)

Limit == IF c.ddl.k = "list" THEN Len(c.ddl.v) ELSE c.cf.nst
StartTop(t) == \* an attempt may begin: the run has not finished
  /\ (t.na > 0 => ~Met(c, t.ata, t.cur))
  /\ t.att < Limit

BakOk(e) == /\ Is("N03", Auto(c) /\ s.ph = "top")
            /\ Is("N01", StartTop(s))
BakNx(e) == [s EXCEPT !.ph = "bak", !.bk = s.sec]
PrepOk(e) == /\ Is("N03", s.ph = (IF Auto(c) THEN "bak" ELSE "top"))
             /\ Is("N01", StartTop(s))
PrepNx(e) == [s EXCEPT !.ph = "prep", !.att = @ + 1, !.it = 0, !.gg = None, !.jac = None, !.tr = None]
ResOk(e) == Is("N03", Auto(c) /\ s.ph \in {"bad", "jac", "gg"} /\ (s.ph = "gg" => ~Conv \/ Overshoot))
            /\ Is("N01", s.ph = "gg" /\ Conv => Overshoot)
ResNx(e) == [s EXCEPT !.ph = "rest", !.sec = s.bk, !.nprec = IF s.ph # "bad" /\ Overshoot /\ Accepted THEN @ + 1 ELSE @]

\* a failed attempt that is to be repeated
Retry(t) == [t EXCEPT !.ph = "top", !.nrj = @ + 1, !.nfail = @ + 1, !.failed = TRUE, !.h = Reduced(IF t.inc > 0 THEN t.inc ELSE t.h, c.cf.mf)]

Shown(v) == Abs(v) < 2000000000   \* larger values are cut off in the log
SupBeginOk(e) ==
  LET inc == (e.l1 - e.l0) * c.dir IN
  /\ Is("N03", s.ph \in {"prep", "pred"} /\ e.u0b = s.cur.ub /\ e.l0b = s.cur.lb)
  /\ Is("N01", ~Arc /\ Shown(e.l1) => Near(inc, Limited(c, s.cur, IF Auto(c) THEN s.h ELSE Prescribed(c, s.att)), 6))
  \* along the curve, no state is predicted beyond a bound on a component
  /\ Is("N01", Arc /\ c.stop.k = "maxu" => e.u1[c.stop.i] <= ScaledU(c.stop.v) + 1)
  /\ Is("N01", Arc /\ c.stop.k = "minu" => e.u1[c.stop.i] >= ScaledU(c.stop.v) - 1)
  /\ Is("N01", Arc /\ s.hk /\ Plain /\ Shown(e.l1) =>
        /\ LengthOk(e, s.h)
        /\ (s.h > 100000 /\ s.h < 1000000000 /\ Small(e, 20000000) =>
              /\ (s.att = 1 => inc >= -2)
              /\ (s.j0 # None => TangentOk(s.j0.j, Unit(e, s.h)))
              /\ (s.dir # None => Dot(s.dir, Unit(e, s.h)) >= -20000)))
SupBeginNx(e) == [s EXCEPT !.ph = IF e.ret = "ok" THEN "iter" ELSE "bad", !.why = e.ret, !.tr = [ub |-> e.u1b, lb |-> e.l1b, u |-> e.u1, l |-> e.l1],
                           !.sec = <<e.u1b, e.l1b>>, !.inc = IF Arc \/ ~Shown(e.l1) THEN s.h ELSE Abs(e.l1 - e.l0),
                           !.dir = IF Arc /\ s.hk /\ Plain /\ Shown(e.l1) /\ s.h > 100000 /\ s.h < 1000000000 /\ Small(e, 20000000) THEN Unit(e, s.h) ELSE @]
SupNextOk(e) == /\ Is("N03", s.ph = "jac" /\ e.u0b = s.cur.ub /\ e.l0b = s.cur.lb)
                /\ Is("N01", s.ph = "jac")
SupNextNx(e) == [s EXCEPT !.ph = IF e.ret = "ok" THEN "iter" ELSE "bad", !.why = e.ret, !.tr = [ub |-> e.u1b, lb |-> e.l1b, u |-> e.u1, l |-> e.l1],
                          !.sec = <<e.u1b, e.l1b>>]

GgOk(e) == IF ~Hooks THEN TRUE ELSE
  /\ Is("N01", s.ph = "iter" /\ s.it < c.cf.nit)
  /\ Is("N03", s.ph = "iter" /\ Same(s.tr, e))
GgNx(e) == [s EXCEPT !.ph = "gg", !.it = @ + 1, !.nf = @ + 1, !.gg = e, !.jac = None, !.tr = State(e)]
GgErrOk(e) == Hooks => Is("N01", s.ph = "iter")
JacKind == \* which Jacobian this is
  CASE s.ph = "start" -> "init"
    [] s.ph \in {"prep", "top", "first", "acc", "rest"} -> "pred"
    [] OTHER -> "iter"
JacOk(e) == IF ~Hooks THEN TRUE ELSE
  Is("N01", CASE JacKind = "init" -> Same(s.cur, e)
       [] JacKind = "pred" -> s.ph = "prep" /\ ~Arc /\ c.cf.euler = 1 /\ ~s.jd /\ e.ub = s.cur.ub
       [] OTHER -> s.ph = "gg" /\ Same(s.tr, e) /\ s.gg.fin /\ (~Arc => ~Conv))
JacNx(e) ==
  LET t == [s EXCEPT !.nj = @ + 1] IN
  CASE JacKind = "init" -> [t EXCEPT !.ph = "first", !.j0 = e]
    [] Hooks /\ JacKind = "pred" -> [t EXCEPT !.ph = "pred", !.jd = TRUE]
    [] Hooks -> [t EXCEPT !.ph = "jac", !.jac = e]
    [] OTHER -> [t EXCEPT !.jac = IF s.tr # None /\ Same(s.tr, e) THEN e ELSE @]

\* at the initial state, or an accepted step
AcceptOk(e) ==
  /\ Is("N01", /\ s.ph \in {"gg", "jac"} /\ Same(s.tr, e)
               /\ e.nf = s.nf /\ e.nit = s.nf /\ e.nj = s.nj /\ e.nac = s.na + 1
               /\ (Hooks => e.nst = s.att /\ e.nrj = s.nrj)
               /\ s.gg.fin
               /\ (Hooks /\ Arc /\ s.it = 1 => s.jac # None)   \* the direction is taken anew where no correction was needed
               /\ (s.na > 0 => ~Met(c, s.ata, s.cur))
               /\ (Overshoot => e.u[c.stop.i] \in (ScaledU(c.stop.v) - 1)..(ScaledU(c.stop.v) + 1))
               /\ (Hooks /\ ~Arc /\ Auto(c) => GrowthOk(c.cf, s.inc, e.h, s.failed))
               /\ (Hooks /\ Arc /\ Auto(c) /\ s.hk /\ Plain => GrowthOk(c.cf, s.h, e.h, s.failed))
               /\ (~Arc /\ Toward(c) => LET t == ScaledL(c.stop.v) IN (e.l - t) * c.dir <= 1))
  /\ Is("N02", s.ph \in {"gg", "jac"} /\ Same(s.tr, e) /\ Accepted)
  /\ Is("N02", ~Arc /\ ~Auto(c) /\ Shown(e.l) => Near((e.l - s.cur.l) * c.dir, Limited(c, s.cur, Prescribed(c, s.na + 1)), 2))
  /\ Is("N03", s.sec = <<e.ub, e.lb>> \/ ~Hooks)
OutOk(e) ==
  IF s.ph = "first" /\ s.att = 0
  THEN Is("N03", Same(s.cur, e)) /\ Is("N01", e.nf = 0 /\ e.nj = s.nj /\ e.nac = 0 /\ (~Arc => Near(e.h, First(c), 1)))
  ELSE AcceptOk(e)
OutNx(e) ==
  LET first == s.ph = "first" /\ s.att = 0
      n1 == [s EXCEPT !.ph = IF e.ret = "ok" THEN (IF first THEN "top" ELSE "acc") ELSE e.ret, !.cur = State(e), !.h = e.h, !.hk = TRUE,
                      !.recs = IF e.ret = "ok" THEN Append(@, e) ELSE @, !.why = e.ret]
  IN IF first THEN n1
     ELSE [n1 EXCEPT !.na = @ + 1, !.ata = IF Hooks THEN s.att ELSE e.nst, !.nfail = 0, !.failed = FALSE, !.j0 = IF s.jac # None THEN s.jac ELSE None]

\* the run is between attempts again
Settle(t) == CASE t.ph = "acc" -> [t EXCEPT !.ph = "top"]
               [] t.ph = "rest" -> Retry(t)
               [] OTHER -> t

(* ---------------- end of a run ---------------- *)
InitFails == Arc /\ c.sys.n = 1 /\ s.j0 # None /\ (s.j0.j[1][1] = 0 \/ s.j0.j[1][2] = 0)
\* the matrix of the last correction may be singular: along the curve it is bordered by the direction of the step
Singular == s.jac # None /\ s.ph = "jac" /\ (Arc \/ Det(s.jac.j) = 0)
MustStop == {"supterm", "nanres", "nandelta"}
TryAgain == {"den", "large", "maxit", "rdiv", "ddiv", "superr", "unmet"}
Counters(e) == /\ e.nf = s.nf /\ e.nit = s.nf /\ e.nj = s.nj /\ e.nfac = s.nj /\ e.nac = s.na
               /\ (Hooks => e.nst = s.att)
               /\ e.nst >= e.nac + e.nrj
               /\ (~Auto(c) => e.nrj = 0)
CodeOk(e) ==
  LET att == IF Hooks THEN s.att ELSE e.nst
      limit == att = Limit
  IN CASE e.code = "success" ->
            \/ s.ph = "stop"
            \/ s.ph \in {"top", "first"} /\ s.na > 0 /\ ~Unmet(c, s.ata, s.cur)
            \/ s.ph \in {"top", "first"} /\ limit /\ s.na > 0
       [] e.code = "contfail" -> Auto(c) /\ s.ph \in {"bad", "gg", "jac", "top"} /\ (Hooks => s.nfail >= c.cf.ncf)
       [] e.code = "contrej" -> FALSE
       [] e.code = "small" -> Auto(c) /\ s.h <= 1
       [] e.code = "nanres" -> ~s.gg.fin
       [] e.code = "supterm" -> s.why = "term"
       [] e.code = "superr" -> s.why = "err" /\ (Auto(c) => limit)
       [] e.code = "maxit" -> s.it = c.cf.nit /\ (Auto(c) => limit)
       [] e.code \in TryAgain -> (Auto(c) => limit)
       [] OTHER -> TRUE
RecordOk(e) == c.rec = 1 /\ c.cb = 1 /\ e.st = "ok" =>
  LET k == Len(s.recs) IN
  /\ Len(e.rl) = k /\ Len(e.rh) = k /\ Len(e.rn) = k
  /\ \A m \in 1..Len(e.ru) : Len(e.ru[m]) = k
  /\ \A i \in 1..k : /\ e.rl[i] = s.recs[i].lb /\ e.rh[i] = s.recs[i].hb
                     /\ \A m \in 1..Len(e.ru) : e.ru[m][i] = s.recs[i].ub[m]
                     /\ Near(e.rn[i], MaxSeq([m \in 1..Len(e.ru) |-> Abs(s.recs[i].u[m])]), 1)
  /\ Len(e.rdl) = (IF Arc THEN k ELSE 0)
  /\ \A i \in 1..Len(e.rdl) : Near(SumF(LAMBDA m : (e.rdu[m][i] \div 100) * (e.rdu[m][i] \div 100), Len(e.rdu)) + (e.rdl[i] \div 100) * (e.rdl[i] \div 100),
                                   100000000, 200000)
EndOk(e) ==
  /\ e.st # "panic"
  /\ IF StopRefused(c) THEN e.st = "err" /\ s.nf = 0 /\ s.nj = 0 /\ s.recs = <<>> /\ e.ub = c.u0b /\ e.lb = c.l0b
     ELSE /\ e.ub = s.cur.ub /\ e.lb = s.cur.lb
          /\ IF e.st = "err"
             THEN Is("N01", CASE e.msg = "user function gave up" -> s.why = "ggerr"
                    [] e.msg = "user jacobian gave up" -> s.why = "jacerr"
                    [] e.msg = "output callback gave up" -> s.ph = "err"
                    [] OTHER -> \/ InitFails /\ s.att = 0
                                \/ Singular
                                \/ Arc /\ (c.stop.k \in {"minu", "maxu"} \/ c.ddl.k = "list"))
             ELSE /\ Is("N01", Counters(e) /\ CodeOk(e) /\ s.why \notin {"ggerr", "jacerr"} /\ s.ph # "err")
                  /\ Is("N01", c.cf.rit = 1 /\ Hooks /\ s.att > 0 => e.itr = s.na + s.nprec)
                  /\ Is("N02", e.code = "success" => e.fin)
                  /\ Is("N03", Hooks /\ s.ph \notin {"stop"} /\ (Auto(c) \/ e.code = "success") => s.sec = <<e.ub, e.lb>>)
                  /\ Is("N03", RecordOk(e))
\* without the callback nothing but the calls of the system is seen; only the outcome is compared
Blind == c.cb = 0
NoFault == c.f = <<>> \/ DOMAIN c.f = {}
Outcome(e) == IF e.st # "ok" THEN <<e.st>> ELSE <<e.st, e.code, e.u, e.l, e.nf, e.nj, e.nst, e.nac, e.nrj>>
SameOk(e) == Is("N02", Has(c, "key") /\ NoFault => \A q \in memo : q = Outcome(e))
MemoNext(e) == IF Has(c, "key") /\ NoFault THEN memo \cup {Outcome(e)} ELSE memo

NewOk(e) == e.st = (IF e.cfg.m = "arc" /\ e.cfg.bord = 0 /\ e.sys.sym # "no" THEN "err" ELSE "ok")

Bad == PrintT(<<"MISMATCH", l>>) /\ l' = Ev.nx
TInit == l = 1 /\ prop = "" /\ sv = <<>> /\ c = NoRun /\ s = NoRun /\ memo = {}
Go(ok) == IF ok THEN l' = l + 1 ELSE Bad
Step(ok, nx) == s' = Settle(nx) /\ Go(Blind \/ ok) /\ UNCHANGED <<prop, sv, c, memo>>
TNext ==
  /\ l <= Len(Trace)
  /\ LET e == Ev IN
     CASE e.e = "reset" -> prop' = e.prop /\ sv' = <<>> /\ memo' = {} /\ c' = NoRun /\ s' = NoRun /\ l' = l + 1
       [] e.e = "new" -> /\ UNCHANGED <<prop, c, s, memo>>
                         /\ sv' = Put(sv, e.s, [cfg |-> e.cfg, sys |-> e.sys, tolb |-> e.tolb])
                         /\ IF NewOk(e) THEN l' = (IF e.st = "ok" THEN l + 1 ELSE e.nx) ELSE Bad
       [] e.e = "run" -> /\ UNCHANGED <<prop, sv, memo>>
                         /\ c' = Config(e) /\ s' = Fresh(Config(e)) @@ [tolb |-> sv[e.s].tolb]
                         /\ l' = l + 1
       [] e.e = "bak" -> Step(BakOk(e), BakNx(e))
       [] e.e = "prep" -> Step(PrepOk(e), PrepNx(e))
       [] e.e = "res" -> Step(ResOk(e), ResNx(e))
       [] e.e = "sup" /\ e.b -> Step(SupBeginOk(e), SupBeginNx(e))
       [] e.e = "sup" /\ ~e.b -> Step(SupNextOk(e), SupNextNx(e))
       [] e.e = "gg" -> Step(GgOk(e), GgNx(e))
       [] e.e = "ggerr" -> Step(GgErrOk(e), [s EXCEPT !.why = "ggerr"])
       [] e.e = "jac" -> Step(JacOk(e), JacNx(e))
       [] e.e = "jacerr" -> Step(TRUE, [s EXCEPT !.why = "jacerr"])
       [] e.e = "out" -> Step(OutOk(e), OutNx(e))
       [] e.e = "end" -> /\ UNCHANGED <<prop, sv>> /\ c' = NoRun /\ s' = NoRun
                         /\ memo' = MemoNext(e)
                         /\ Go((Blind \/ EndOk(e)) /\ SameOk(e))
  /\ (l' > Len(Trace) => PrintT(<<"TRACE-END", Len(Trace)>>))
=============================================================================
