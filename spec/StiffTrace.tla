------------------------------ MODULE StiffTrace ----------------------------
(* Validates recorded runs with stiffness detection against Stiff. *)
EXTENDS Stiff, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, sv, cfg, steps
Ev == Trace[l]
Has(r, f) == f \in DOMAIN r
Get(r, f, d) == IF Has(r, f) THEN r[f] ELSE d
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, t) == Abs(a - b) <= t
Idx(n) == [i \in 1..n |-> i]

Border == [DoPri5 |-> 3250000, DoPri8 |-> 6100000]
Offers(c) == c.m \in DOMAIN Border
Setting(par) == [sr |-> Get(par, "sr", 15), si |-> Get(par, "si", 6), ss |-> Get(par, "ss", 10)]
\* coefficient of the problem in the stretch that holds the end of a step; two where the end is at a border
Coef(p, j) == IF p.w[IF j < 0 THEN 1 ELSE IF j >= Len(p.w) THEN Len(p.w) ELSE j + 1] = 1 THEN p.hi ELSE p.lo
CoefsAt(p, x) == {Coef(p, ((x \div 100 + d) * p.den - 10000) \div 1000000) : d \in {-3, 3}}
Reached(e) == Len(steps) - 1
\* the signals of the recorded steps
Hot(e) == [k \in 1..Reached(e) |-> e.sth[k + 1] > Border[cfg.m]]
Unsure(e) == \E k \in 1..Len(e.sth) : Near(e.sth[k], Border[cfg.m], 1)
\* product of stepsize and spectral radius of a linear problem; the estimate is kept where the stages do not differ
Large(v) == \E i \in 1..Len(v) : Abs(v[i]) >= 100
ProductOk(e) ==
  \A k \in 1..Reached(e) : \E q \in CoefsAt(cfg.prob, steps[k + 1].x) :
     LET hq == (steps[k + 1].h \div 100) * q
     IN \/ Near(e.sth[k + 1], hq, q + 2 + (IF hq < 1000000 THEN hq \div 20 ELSE 0))
        \/ e.sth[k + 1] = e.sth[k] /\ (hq < 1500000 \/ ~Large(steps[k].y))
Lists(e, log) ==
  /\ e.sti = [i \in 1..Len(log) |-> log[i][1]]
  /\ Len(e.stx) = Len(log) /\ \A i \in 1..Len(log) : Near(e.stx[i], steps[log[i][2]].x, 3)
EndOk(e) ==
  LET par == cfg.par
      on == par.stiff = 1 /\ Offers(cfg)
      saved == Get(par, "sv", par.stiff) = 1
      stops == Get(par, "se", 1) = 1
      set == Setting(par)
  IN /\ e.st # "panic"
     /\ (e.st = "ok" => e.na = Reached(e))
     /\ (~saved => e.sth = <<>> /\ e.sti = <<>> /\ e.stx = <<>>)
     /\ (saved => Len(e.sth) = Reached(e) + 1 /\ e.sth[1] = 0)
     /\ IF ~on THEN e.msg # "stiffness detected" /\ (e.st = "ok" \/ cfg.m = "Radau5") /\ (saved => e.sti = <<>> /\ e.stx = <<>> /\ \A k \in 1..Len(e.sth) : e.sth[k] = 0)
        ELSE IF ~saved THEN (e.st = "ok" \/ (stops /\ e.msg = "stiffness detected"))
        ELSE /\ ProductOk(e)
             /\ \/ Unsure(e)
                \/ LET s == TLCEval(Detect(set, Hot(e)))
                   IN IF e.st = "ok"
                      THEN Lists(e, s.log) /\ (stops => s.log = <<>>)
                      ELSE /\ stops /\ e.msg = "stiffness detected" /\ e.na = Reached(e) + 1
                           /\ s.log = <<>> /\ Lists(e, <<>>)
                           /\ Signal(set, s, TRUE).det

(* with equal steps the word of the problem alone decides, as long as the solution does not vanish *)
Word(p, m) == [k \in 1..Len(p.w) |-> (Coef(p, k - 1) * 1000) * (1000 \div p.den) > Border[m]]
FixedOk(e) ==
  Has(cfg, "heq") /\ cfg.par.stiff = 1 /\ Offers(cfg) /\ (\A k \in 1..Len(steps) : Large(steps[k].y)) =>
    LET set == Setting(cfg.par)
        n == (cfg.x1 * cfg.prob.den) \div cfg.xd
        s == TLCEval(Detect(set, SubSeq(Word(cfg.prob, cfg.m), 1, n)))
    IN IF Get(cfg.par, "se", 1) = 1 /\ s.log # <<>>
       THEN e.st = "err" /\ e.msg = "stiffness detected" /\ e.na = s.log[1][1]
       ELSE e.st = "ok" /\ e.na = n /\ (Get(cfg.par, "sv", 1) = 1 => Lists(e, s.log))

Bad == PrintT(<<"MISMATCH", l>>) /\ l' = Ev.nx
TInit == l = 1 /\ sv = <<>> /\ cfg = <<>> /\ steps = <<>>
TNext ==
  /\ l <= Len(Trace)
  /\ LET e == Ev IN
     CASE e.e = "reset" -> sv' = <<>> /\ cfg' = <<>> /\ steps' = <<>> /\ l' = l + 1
       [] e.e = "new" -> /\ sv' = Put(sv, e.s, [m |-> e.m, prob |-> e.prob, par |-> e.par]) /\ UNCHANGED <<cfg, steps>>
                         /\ IF e.st = "ok" THEN l' = l + 1 ELSE Bad
       [] e.e = "upd" -> /\ sv' = [sv EXCEPT ![e.s].par = e.par] /\ UNCHANGED <<cfg, steps>>
                         /\ IF e.st = "ok" THEN l' = l + 1 ELSE Bad
       [] e.e = "run" -> /\ cfg' = sv[e.s] @@ e /\ steps' = <<>> /\ UNCHANGED sv
                         /\ IF e.st = "ok" THEN l' = l + 1 ELSE Bad
       [] e.e = "step" -> steps' = Append(steps, e) /\ UNCHANGED <<sv, cfg>> /\ l' = l + 1
       [] e.e = "end" -> /\ cfg' = <<>> /\ steps' = <<>> /\ UNCHANGED sv
                         /\ IF EndOk(e) /\ FixedOk(e) THEN l' = l + 1 ELSE Bad
  /\ (l' > Len(Trace) => PrintT(<<"TRACE-END", Len(Trace)>>))
=============================================================================
