------------------------------- MODULE OdeRun -------------------------------
(* One run of an integrator, as seen by the user: a sequence of accepted      *)
(* stations reported through the step callback, the dense stations reported   *)
(* in between, and the end of the run.  Stations, stepsizes are integers in   *)
(* units of 1/XS; the configuration of a run is a record c.                   *)
EXTENDS Base

XS == 100000000

Explicit1 == {"FwEuler", "Rk2", "Rk3", "Heun3", "Rk4", "Rk4alt"}
Embedded == {"Radau5", "MdEuler", "Merson4", "Zonneveld4", "Fehlberg4", "DoPri5", "Verner6", "Fehlberg7", "DoPri8"}
Implicit == {"Radau5", "BwEuler"}
DenseMethods == {"Radau5", "DoPri5", "DoPri8"}
Order == [Radau5 |-> 5, BwEuler |-> 1, FwEuler |-> 1, Rk2 |-> 2, Rk3 |-> 3, Heun3 |-> 3, Rk4 |-> 4, Rk4alt |-> 4, MdEuler |-> 2,
          Merson4 |-> 4, Zonneveld4 |-> 4, Fehlberg4 |-> 4, DoPri5 |-> 5, Verner6 |-> 6, Fehlberg7 |-> 7, DoPri8 |-> 8]
EstOrder == [MdEuler |-> 1, Merson4 |-> 3, Zonneveld4 |-> 3, Fehlberg4 |-> 4, DoPri5 |-> 4, Verner6 |-> 5, Fehlberg7 |-> 7, DoPri8 |-> 5]

Has(r, f) == f \in DOMAIN r
Get(r, f) == IF Has(r, f) THEN r[f] ELSE 0

(* ---------------- configuration ---------------- *)
Fixed(c) == Has(c, "heq")
FixedOk(c) == c.heq[1] > 0
\* number of equal steps: the quotient rounded up; one more is tolerated when an exact quotient has no exact binary operands
Dyadic(d) == d \in {1, 2, 4, 8, 16, 32, 64}
NFixed(c) ==
  LET num == (c.x1 - c.x0) * c.heq[2]
      den == c.xd * c.heq[1]
      n == (num + den - 1) \div den
  IN IF num % den = 0 /\ ~(Dyadic(c.xd) /\ Dyadic(c.heq[2])) THEN {n, n + 1} ELSE {n}

WantsDense(c) == c.o # <<>> /\ (c.o.dcb = 1 \/ c.o.drec = 1 \/ (c.o.file = 1 /\ (Has(c.o, "dh") \/ Has(c.o, "dx"))))
\* dense stations as fractions <<numerator, denominator>>
DenseStations(c) ==
  LET first == <<c.x0, c.xd>>
      end == <<c.x1, c.xd>>
  IN IF Has(c.o, "dh") THEN
       LET num == (c.x1 - c.x0) * c.o.dh[2]
           den == c.xd * c.o.dh[1]
           n == Max2(2, ((num + den - 1) \div den) + 1)   \* all multiples before the end
       IN <<first>> \o [i \in 1..(n - 2) |-> <<c.x0 * c.o.dh[2] + i * c.o.dh[1] * c.xd, c.xd * c.o.dh[2]>>] \o <<end>>
     ELSE IF Has(c.o, "dx") THEN <<first>> \o [i \in 1..Len(c.o.dx) |-> <<c.o.dx[i], c.o.dd>>] \o <<end>>
     ELSE <<first, end>>
\* scaled value of a fraction
ScaleF(f, s) == (f[1] \div f[2]) * s + RoundDiv((f[1] % f[2]) * (s \div 1000), f[2]) * 1000 + RoundDiv(((f[1] % f[2]) * (s \div 1000) - RoundDiv((f[1] % f[2]) * (s \div 1000), f[2]) * f[2]) * 1000, f[2])
StationX(f) == ScaleF(f, XS)

ListAscending(c) == Has(c.o, "dx") => \A i \in 1..(Len(c.o.dx) - 1) : c.o.dx[i] < c.o.dx[i + 1]
ListInside(c) == Has(c.o, "dx") /\ Len(c.o.dx) > 0 =>
  /\ c.o.dx[1] * c.xd > c.x0 * c.o.dd
  /\ c.o.dx[Len(c.o.dx)] * c.xd < c.x1 * c.o.dd

\* requests that must be refused before anything happens
Refused(c) ==
  \/ c.x1 <= c.x0
  \/ Len(c.y0) # c.n
  \/ (Fixed(c) /\ ~FixedOk(c))
  \/ (WantsDense(c) /\ (c.m \notin DenseMethods \/ ~ListInside(c)))

\* problems every method integrates without trouble in the intervals used (Newton iterations may fail with equal steps)
Tame(c) == c.prob.k = "poly" \/ (c.prob.k \in {"lin", "rat", "ramp"} /\ ~(c.m \in Implicit /\ Fixed(c)))

(* ---------------- accepted steps ---------------- *)
Growth(c) == c.par.mmax
Attempts(p, e) == e.ns - p.ns
SmoothFor(c) == c.m \in Embedded \ Implicit /\ c.prob.k = "poly" /\ Len(c.prob.a[1]) <= EstOrder[c.m] /\ c.par.ta <= 7 /\ c.par.tr <= 7

\* e: reported accepted step, p: the one before it, pa: attempts made for p
StepSize(c, p, e, pa) ==
  IF Fixed(c)
  THEN \E n \in NFixed(c) : Near(e.h * n, c.x1s - c.x0s, n) /\ e.na <= n
  ELSE IF c.m \notin Embedded THEN Near(e.h * 10, c.x1s - c.x0s, 20) /\ e.na <= 10
  ELSE /\ (p.na = 0 => e.h <= (XS \div c.par.hini[2]) * c.par.hini[1] + 2)
       /\ (p.na > 0 => e.h <= Growth(c) * p.h + 5 * Growth(c))
       /\ (pa > 1 => e.h <= p.h + 1)
       /\ (SmoothFor(c) /\ p.na > 0 =>
             /\ Attempts(p, e) = 1
             /\ Near(e.h, Min2(Growth(c) * p.h, c.x1s - p.x), 10 * Growth(c)))

StepAllowed(c, p, e, pa) ==
  /\ e.na = p.na + 1
  /\ e.ns > p.ns
  /\ e.nr >= p.nr
  /\ e.nr - p.nr <= Attempts(p, e) - 1
  /\ (c.m \in Embedded \ Implicit /\ p.na > 0 => e.nr - p.nr = Attempts(p, e) - 1)
  /\ (Fixed(c) => Attempts(p, e) = 1)
  /\ e.h >= (IF c.prob.k = "ramp" THEN 0 ELSE 1)
  /\ Near(e.x, p.x + e.h, 2)
  /\ e.x <= c.x1s + 2
  /\ StepSize(c, p, e, pa)

\* user functions are called inside the remaining interval only
CallsInside(c, p, e) == e.fany => e.fmin >= p.x - 2 /\ e.fmax <= c.x1s + 2

\* the implicit methods never amplify solutions of contractive problems
Contractive(c, p, e) == c.m \in Implicit /\ c.prob.k = "cube" => \A i \in 1..Len(e.y) : Abs(e.y[i]) <= Abs(p.y[i]) + 1

FirstAllowed(c, e) == e.na = 0 /\ e.ns = 0 /\ e.nr = 0 /\ e.xb = c.x0b /\ e.yb = c.y0b /\ ~e.fany
=============================================================================
