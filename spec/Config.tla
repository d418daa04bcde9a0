------------------------------- MODULE Config -------------------------------
(* Settings of the continuation solver and parameters of the ODE solver.      *)
(* A setting is a named field of a record that holds whole numbers in the     *)
(* units of the field; setters write one or several fields and nothing else.  *)
(* A solver is made from a record only if every field lies in its range; an   *)
(* ODE solver keeps the parameters of the last accepted update.               *)
EXTENDS Integers, Sequences

\* ---- continuation: which fields a setter writes
Wide == {"verb3", "told", "sod"}
\* filters of Soderlind's table in units of 1/72, b is the free parameter of two of them
Filter(k, b) ==
  CASE k = 1 -> <<36, 36, 0, 36, 0>>
    [] k = 2 -> <<72 \div b, 72 \div b, 0, 72 \div b, 0>>
    [] k = 3 -> <<12, 12, 0, 0, 0>>
    [] k = 4 -> <<18, 36, 18, 54, 18>>
    [] k = 5 -> <<72 \div b, 144 \div b, 72 \div b, 216 \div b, 72 \div b>>
    [] k = 6 -> <<4, 8, 4, 0, 0>>
    [] k = 7 -> <<90, 36, -54, -18, -54>>
    [] k = 8 -> <<24, 4, -20, -60, -12>>
Set(c, f, v) ==
  CASE f = "verb3" -> [c EXCEPT !.verb = v[1], !.verbi = v[2], !.verbs = v[3]]
    [] f = "told" -> [c EXCEPT !.tad = v[1], !.trd = v[2]]
    [] f = "sod" -> LET w == Filter(v[1], v[2]) IN [c EXCEPT !.b1 = w[1], !.b2 = w[2], !.b3 = w[3], !.a2 = w[4], !.a3 = w[5]]
    [] OTHER -> [c EXCEPT ![f] = v]
\* units: m_failure 1/10^4; tolerances 1/10^13 (tangent 1/10^8); delta 1/10; exponent 1/10^4
Counts == {"nst", "ncf", "ncr", "nit", "nrd", "ndd", "nopt"}
Admissible(c) ==
  /\ \A f \in Counts : c[f] >= 1
  /\ c.mf >= 10 /\ c.tar >= 10 /\ c.tad >= 10 /\ c.trd >= 10
  /\ c.dmax > 0 /\ c.nbeta > 0 /\ c.tgt >= 1

\* ---- ODE: multipliers, h_ini, theta and so on in units of 1/10^4, 1/10^9 (hini, rmin), 1/10^8 (theta)
Proper(p) ==
  /\ p.nit >= 1 /\ p.nmax >= 1
  /\ p.mmin >= 10 /\ p.mmin < 5000 /\ p.mmin < p.mmax
  /\ p.mmax >= 100 /\ p.mmax <= 200000
  /\ p.msaf >= 1000 /\ p.msaf <= 10000 /\ p.mrej >= 0
  /\ p.hini >= 10 /\ p.rmin >= 10 /\ p.theta >= 10
  /\ p.c1h >= 5000 /\ p.c1h <= 15000 /\ p.c1h < p.c2h /\ p.c2h >= 10000 /\ p.c2h <= 20000
  /\ p.beta >= 0 /\ p.beta <= 1000 /\ p.lm >= 0 /\ p.lm <= 10000
\* tolerances 10^-a and 10^-r are refused from ten times the machine precision downwards
TolProper(a, r) == a <= 14 /\ r <= 14
\* the outcome of making or updating a solver that holds sol (method and parameters)
None == [m |-> "none"]
Made(sol, par) == IF Proper(par.p) THEN par ELSE sol
MayUpdate(sol, par) == Proper(par.p) /\ par.m = sol.m
Updated(sol, par) == IF MayUpdate(sol, par) THEN par ELSE sol
=============================================================================
