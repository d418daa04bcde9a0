------------------------------ MODULE MC_Search -----------------------------
(* Searches over every function on a small grid: a root search and a minimum  *)
(* search that pick their next point freely inside the current interval, and  *)
(* the expanding search.  Whatever the choices, the contracts of Search hold. *)
EXTENDS Search
CONSTANTS N, W
V == (-W)..W
Y(v) == IF v = 0 THEN Null ELSE <<2097152 + v, 0, 0>>
X(x) == <<2097152 + x, 0, 0>>
P(x) == <<x * 1000000, 0>>
VARIABLES kind, f, ev, b, c, lo, hi, done
vars == <<kind, f, ev, b, c, lo, hi, done>>
E(x) == [x |-> P(x), xb |-> X(x), y |-> Y(f[x])]
Root0 == kind = "root" /\ f[0] * f[N] < 0 /\ ev = <<E(0), E(N)>> /\ b = 0 /\ c = N /\ lo = 0 /\ hi = N
Min0 == kind = "min" /\ \E x \in 1..(N - 1) : ev = <<E(x)>> /\ b = x /\ c = x /\ lo = 0 /\ hi = N
Exp0 == kind = "expand" /\ \E x \in 0..(N - 1) : ev = <<E(x), E(x + 1)>> /\ lo = x /\ hi = 0
        /\ (IF f[x + 1] > f[x] THEN b = x /\ c = x + 1 ELSE b = x + 1 /\ c = x)
Init == f \in [0..N -> V] /\ done = FALSE /\ (Root0 \/ Min0 \/ Exp0)
\* a root search keeps b and c on different sides of the axis
RootMove == kind = "root" /\ ~done /\
  IF f[b] = 0 \/ Abs(b - c) <= 1 THEN done' = TRUE /\ UNCHANGED <<ev, b, c, lo, hi>>
  ELSE \E t \in 0..N : Min2(b, c) < t /\ t < Max2(b, c) /\ ev' = Append(ev, E(t)) /\ b' = t /\ done' = FALSE
    /\ c' = (IF f[t] * f[c] > 0 THEN b ELSE c) /\ UNCHANGED <<lo, hi>>
MinMove == kind = "min" /\ ~done /\
  IF b - lo <= 1 /\ hi - b <= 1 THEN done' = TRUE /\ UNCHANGED <<ev, b, c, lo, hi>>
  ELSE \E t \in (lo + 1)..(hi - 1) : t # b /\ ev' = Append(ev, E(t)) /\ done' = FALSE /\ c' = c
    /\ IF f[t] <= f[b] THEN b' = t /\ (IF t < b THEN hi' = b /\ lo' = lo ELSE lo' = b /\ hi' = hi)
       ELSE b' = b /\ (IF t < b THEN lo' = t /\ hi' = hi ELSE hi' = t /\ lo' = lo)
\* the expanding search doubles its step while the values do not rise
ExpMove == kind = "expand" /\ ~done /\
  LET t == b + (IF hi = 0 THEN b - c ELSE 2 * (b - c)) IN
  IF t \notin 0..N THEN done' = TRUE /\ hi' = -1 /\ UNCHANGED <<ev, b, c, lo>>
  ELSE /\ ev' = Append(ev, E(t)) /\ lo' = lo
       /\ IF f[t] > f[b] THEN done' = TRUE /\ hi' = t + 1 /\ UNCHANGED <<b, c>>
          ELSE done' = FALSE /\ c' = b /\ b' = t /\ hi' = 1
Next == (RootMove \/ MinMove \/ ExpMove) /\ UNCHANGED <<kind, f>>
RootSafe == kind = "root" => Inside(ev, Ends(ev)) /\ (f[b] = 0 \/ f[c] = 0 \/ f[b] * f[c] < 0)
RootDone == (kind = "root" /\ done) => Seen(ev, X(b)) /\ (Sign(ValueAt(ev, X(b))) = 0 \/ \E k \in 1..Len(ev) : Sign(ev[k].y) # Sign(ValueAt(ev, X(b))) /\ Abs(ev[k].x[1] - P(b)[1]) <= 1000000)
MinDone == kind = "min" => Lowest(ev, X(b)) /\ lo < b /\ b < hi
MinEnds == (kind = "min" /\ done) => \A k \in 1..Len(ev) : ev[k].x[1] <= P(lo)[1] \/ ev[k].x[1] >= P(hi)[1] \/ ev[k].xb = X(b)
ExpDone == (kind = "expand" /\ done /\ hi > 0) => LET r == hi - 1 IN
  IF c < r THEN Triple(E(c), E(b), E(r)) ELSE Triple(E(r), E(b), E(c))
ExpRun == kind = "expand" => LET s == Bracketing([a |-> 4 * lo, step |-> 4, grow |-> 8, ev |-> ev]) IN s.ok /\ s.q = E(b) /\ s.p = E(c) /\ (s.done => done)
=============================================================================
