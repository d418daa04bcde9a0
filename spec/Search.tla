------------------------------- MODULE Search -------------------------------
(* Contracts of bracketing searches over functions of one variable, stated    *)
(* over the sequence of evaluations: points x and values y in an exact        *)
(* order-preserving encoding (three integers), points also in fixed point     *)
(* with fifteen decimals in two parts (millionths and 10^-15).                *)
EXTENDS Base

Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
Le(a, b) == a = b \/ Lt(a, b)
Null == <<2097152, 0, 0>>
Sign(y) == IF y = Null THEN 0 ELSE IF Lt(y, Null) THEN -1 ELSE 1
\* distance in units of 10^-15, saturated
Dist(p, q) == IF Abs(p[1] - q[1]) > 1 THEN 1600000000 ELSE Abs((p[1] - q[1]) * 1000000000 + (p[2] - q[2]))
Within(p, lo, hi) == Le(lo, p) /\ Le(p, hi)
Seen(ev, x) == \E k \in 1..Len(ev) : ev[k].xb = x
ValueAt(ev, x) == ev[CHOOSE k \in 1..Len(ev) : ev[k].xb = x].y
Ends(ev) == IF Lt(ev[1].xb, ev[2].xb) THEN <<ev[1].xb, ev[2].xb>> ELSE <<ev[2].xb, ev[1].xb>>
Inside(ev, ends) == \A k \in 1..Len(ev) : Within(ev[k].xb, ends[1], ends[2])

----------------------------------------------------------------------------
\* Root of a function with a change of sign: tol in units of 10^-15
RootSlack(x) == 60 + Abs(x[1]) \div 500000
RootFound(ev, x, xb, tol) ==
  /\ Seen(ev, xb)
  /\ \/ Sign(ValueAt(ev, xb)) = 0
     \/ \E k \in 1..Len(ev) : Sign(ev[k].y) # Sign(ValueAt(ev, xb)) /\ Dist(ev[k].x, x) <= tol + RootSlack(x)
Straddle(ev) == Sign(ev[1].y) * Sign(ev[2].y) = -1

\* Minimum: the returned point has the lowest value, with points (or ends) close on both sides
Lowest(ev, xb) == Seen(ev, xb) /\ \A k \in 1..Len(ev) : Le(ValueAt(ev, xb), ev[k].y)
MinSlack(x, tol) == 2 * (15 * Abs(x[1])) + (2 * (tol \div 3)) + 100
Enclosed(ev, x, xb, a, b, tol) ==
  LET near == {ev[k].x : k \in {j \in 1..Len(ev) : ev[j].xb # xb}}
  IN /\ \E p \in near \cup {a} : p[1] <= x[1] /\ Dist(p, x) <= MinSlack(x, tol)
     /\ \E p \in near \cup {b} : p[1] >= x[1] /\ Dist(p, x) <= MinSlack(x, tol)

----------------------------------------------------------------------------
\* Expanding search for three points around a minimum: a machine driven by the
\* values; positions in millionths, step and growth in quarters
Far == 1500000000
Start(e) == [ok |-> TRUE, n |-> 0, done |-> FALSE, x |-> e.a * 250000, p |-> << >>, q |-> << >>, r |-> << >>, step |-> e.step * 250000]
SStep(e, s, v) ==
  IF s.n = 0 THEN [s EXCEPT !.n = 1, !.ok = v.x[1] = s.x, !.q = v]
  ELSE IF s.n = 1 THEN
    LET ok == s.ok /\ v.x[1] = s.x + s.step IN
    IF Lt(s.q.y, v.y) THEN [s EXCEPT !.n = 2, !.ok = ok, !.p = v, !.step = -s.step]
    ELSE [s EXCEPT !.n = 2, !.ok = ok, !.x = s.x + s.step, !.p = s.q, !.q = v]
  ELSE
    LET t == s.x + s.step
        ok == s.ok /\ ~s.done /\ Near(v.x[1], t, 20)
    IN IF ~ok THEN [s EXCEPT !.ok = FALSE]
       ELSE IF Lt(s.q.y, v.y) THEN [s EXCEPT !.done = TRUE, !.r = v]
       ELSE [s EXCEPT !.x = v.x[1], !.p = s.q, !.q = v, !.step = RoundDiv(s.step * e.grow, 4)]
\* only the evaluations within representable range take part
Usable(ev) == \A k \in 1..Len(ev) : Abs(ev[k].x[1]) < 20000000
Bracketing(e) == FoldLeft(LAMBDA s, v : SStep(e, s, v), Start(e), e.ev)
Triple(p, q, r) == Lt(p.xb, q.xb) /\ Lt(q.xb, r.xb) /\ Le(q.y, p.y) /\ Le(q.y, r.y)
Reported(ev, p) == \E k \in 1..Len(ev) : ev[k].xb = p.xb /\ ev[k].y = p.y

----------------------------------------------------------------------------
\* Real roots of  lead * prod (2 x - r) * (x^2 + 1)^c  in [a, b], units 10^-8, ends in quarters
HalfRoots(c) == {c[k] : k \in 2..Len(c)}
Sure(c, a, b) == {r * 50000000 : r \in {h \in HalfRoots(c) : 2 * h > a /\ 2 * h < b}}
Maybe(c, a, b) == {r * 50000000 : r \in {h \in HalfRoots(c) : 2 * h = a \/ 2 * h = b}}
RootsFound(got, sure, maybe, tol) ==
  /\ \A k \in 1..Len(got) : \E r \in sure \cup maybe : Near(got[k], r, tol)
  /\ \A r \in sure : Cardinality({k \in 1..Len(got) : Near(got[k], r, tol)}) = 1
  /\ \A r \in maybe : Cardinality({k \in 1..Len(got) : Near(got[k], r, tol)}) <= 1
  /\ \A k \in 1..(Len(got) - 1) : got[k] <= got[k + 1]
=============================================================================
