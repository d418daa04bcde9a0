------------------------------- MODULE MC_Ode -------------------------------
(* Bounded model of a run: an adaptive or equal-step controller advancing     *)
(* over an interval of a few units while attempts succeed, are rejected or    *)
(* diverge, faults strike, and the step or dense callbacks stop the run.      *)
EXTENDS OdeRun
CONSTANTS NU,        \* the interval has NU units
          MaxTry     \* limit on the number of attempts
VARIABLES c, x, h, na, ns, nr, acc, pa, tries, follow, dens, st
vars == <<c, x, h, na, ns, nr, acc, pa, tries, follow, dens, st>>

U == XS \div 64
Cfg(m, heq, dx) ==
  [m |-> m, n |-> 1, x0 |-> 0, x1 |-> NU, xd |-> 64, x0s |-> 0, x1s |-> NU * U, y0 |-> <<0>>,
   prob |-> [k |-> "none"], par |-> [mmax |-> 4, hini |-> <<2, 64>>, nmax |-> MaxTry],
   o |-> [cb |-> 1, rec |-> 0, dcb |-> IF m \in DenseMethods THEN 1 ELSE 0, drec |-> 0, file |-> 0, dx |-> dx, dd |-> 64]]
  @@ (IF heq = 0 THEN <<>> ELSE [heq |-> <<heq, 64>>])
Uniform(k, u) == [k EXCEPT !.o = [cb |-> 1, rec |-> 0, dcb |-> k.o.dcb, drec |-> 0, file |-> 0, dh |-> <<u, 64>>]]
Configs == { Cfg(m, q, d) : m \in {"Radau5", "DoPri5", "MdEuler"}, q \in {0, 2, 3}, d \in {<<>>, <<1>>, <<2, 3, NU - 1>>} }
  \cup { Uniform(Cfg(m, q, <<>>), u) : m \in {"Radau5", "DoPri5"}, q \in {0, 3}, u \in {1, 4, 5, 7, NU, NU + 1} }
FixedH(k) == (NU * U) \div (CHOOSE n \in NFixed(k) : TRUE)

Init == /\ c \in {k \in Configs : ~Refused(k) \/ k.m = "MdEuler"}
        /\ x = 0 /\ na = 0 /\ ns = 0 /\ nr = 0 /\ pa = 1 /\ tries = 0 /\ follow = FALSE
        /\ h = IF Fixed(c) THEN FixedH(c) ELSE Min2(2 * U, c.x1s)
        /\ acc = << [x |-> 0, h |-> h, na |-> 0, ns |-> 0, nr |-> 0] >>
        /\ dens = IF WantsDense(c) /\ c.m \in DenseMethods THEN 1 ELSE 0
        /\ st = "run"

Reached(xx) == Cardinality({i \in 1..Len(DenseStations(c)) : StationX(DenseStations(c)[i]) <= xx})
Accept ==
  /\ st = "run" /\ x < c.x1s
  /\ LET xn == x + h
         last == xn >= c.x1s
     IN \E g \in (IF Fixed(c) THEN {<<1, 1>>} ELSE {<<1, 2>>, <<1, 1>>, <<3, 2>>, <<2, 1>>, <<4, 1>>}) :
        LET hg == (h * g[1]) \div g[2]
            hn == IF Fixed(c) THEN h ELSE Min2(IF follow THEN Min2(hg, h) ELSE hg, c.x1s - xn)
        IN /\ x' = xn /\ na' = na + 1 /\ ns' = ns + 1
           /\ acc' = Append(acc, [x |-> xn, h |-> h, na |-> na + 1, ns |-> ns + 1, nr |-> nr])
           /\ pa' = tries + 1 /\ tries' = 0 /\ follow' = FALSE
           /\ dens' = IF WantsDense(c) /\ c.m \in DenseMethods THEN Reached(xn) ELSE 0
           /\ h' = hn
           /\ st' \in (IF last THEN {"done"} ELSE {"run", "stop", "fail"})
  /\ UNCHANGED <<c, nr>>
Retry == \* rejected or diverging
  /\ st = "run" /\ x < c.x1s /\ ~Fixed(c) /\ h > U \div 4
  /\ \E rejected \in (IF c.m \in Implicit THEN {TRUE, FALSE} ELSE {TRUE}) :
       nr' = IF rejected /\ na > 0 THEN nr + 1 ELSE nr
  /\ h' = h \div 2 /\ ns' = ns + 1 /\ tries' = tries + 1 /\ follow' = TRUE
  /\ UNCHANGED <<c, x, na, acc, pa, dens, st>>
Limit == st = "run" /\ ns >= c.par.nmax /\ ~Fixed(c) /\ st' = "limit" /\ UNCHANGED <<c, x, h, na, ns, nr, acc, pa, tries, follow, dens>>
Fault == st = "run" /\ st' = "fail" /\ UNCHANGED <<c, x, h, na, ns, nr, acc, pa, tries, follow, dens>>
Next == (ns < c.par.nmax /\ (Accept \/ Retry)) \/ Limit \/ Fault

\* every step the controller takes is one the conformance check allows
StepsAllowed == Len(acc) >= 2 => LET n == Len(acc) IN
  \E q \in 1..MaxTry : StepAllowed(c, acc[n - 1], acc[n], q)
\* and with the attempts of the previous step known
LastAllowed == [][Len(acc') > Len(acc) /\ Len(acc') >= 2 => StepAllowed(c, acc[Len(acc)], acc'[Len(acc')], pa)]_vars
Monotone == \A i \in 1..(Len(acc) - 1) : acc[i].x < acc[i + 1].x /\ acc[i + 1].x = acc[i].x + acc[i + 1].h
Inside == x <= c.x1s + 2
Ends == st = "done" => Near(x, c.x1s, 2) /\ (Fixed(c) => na \in NFixed(c))
DenseInOrder == dens = (IF WantsDense(c) /\ c.m \in DenseMethods THEN Reached(x) ELSE 0)
DenseComplete == st = "done" /\ WantsDense(c) /\ c.m \in DenseMethods => dens >= Len(DenseStations(c)) - 1
Counted == na <= ns /\ nr <= ns - na
DensePlaced == LET fs == DenseStations(c) IN \A i \in 1..(Len(fs) - 1) : StationX(fs[i]) <= StationX(fs[i + 1])
\* with a uniform spacing no two neighbours are further apart and none coincide
DenseEven == Has(c.o, "dh") => LET fs == DenseStations(c) IN \A i \in 1..(Len(fs) - 1) :
  LET gap == StationX(fs[i + 1]) - StationX(fs[i]) IN gap > 0 /\ gap <= c.o.dh[1] * U + 1
View == <<c, x, h, na, ns, nr, pa, tries, follow, st, IF Len(acc) >= 2 THEN acc[Len(acc) - 1] ELSE <<>>>>
=============================================================================
