------------------------------ MODULE MC_Stat ------------------------------
(* A histogram that receives values one at a time and places each of them by  *)
(* halving the range of stations, with resets in between; alongside, the data *)
(* seen since the last reset, whose tally, quartiles and variance are fixed   *)
(* by the multiset alone.                                                     *)
EXTENDS Stat
CONSTANTS V, S, D
VARIABLES s, c, x, v, lo, hi
Stations == {t \in UNION {[1..n -> 0..V] : n \in 2..S} : \A i \in 1..(Len(t) - 1) : t[i] < t[i + 1]}
Idle == hi = 0
Init == s \in Stations /\ c = [i \in 1..(Len(s) - 1) |-> 0] /\ x = <<>> /\ v = 0 /\ lo = 0 /\ hi = 0
Arrive == Idle /\ Len(x) < D /\ \E w \in (0 .. V) \cup {NaN, -Infinite, Infinite} :
  /\ x' = Append(x, w)
  /\ IF Number(w) /\ w >= s[1] /\ w < s[Len(s)] THEN v' = w /\ lo' = 1 /\ hi' = Len(s) + 1 ELSE UNCHANGED <<v, lo, hi>>
  /\ UNCHANGED <<s, c>>
Halve == ~Idle /\ hi - lo > 1 /\ (LET m == (lo + hi) \div 2 IN IF v >= s[m] THEN lo' = m /\ hi' = hi ELSE lo' = lo /\ hi' = m) /\ UNCHANGED <<s, c, x, v>>
Place == ~Idle /\ hi - lo = 1 /\ c' = [c EXCEPT ![lo] = @ + 1] /\ lo' = 0 /\ hi' = 0 /\ v' = 0 /\ UNCHANGED <<s, x>>
Clear == Idle /\ x # <<>> /\ c' = [i \in 1..(Len(s) - 1) |-> 0] /\ x' = <<>> /\ UNCHANGED <<s, v, lo, hi>>
Next == Arrive \/ Halve \/ Place \/ Clear
Bracket == ~Idle => s[lo] <= v /\ (hi <= Len(s) => v < s[hi])
Counted == Idle => c = Tally(s, x)
Whole == Idle => Total(c) = Cardinality({i \in 1..Len(x) : Number(x[i]) /\ s[1] <= x[i] /\ x[i] < s[Len(s)]})
Nums == SelectSeq(x, LAMBDA w : Real(w))
Between == (Idle /\ Nums # <<>>) => LET y == TLCEval(Sorted(Nums)) IN
  /\ \A q \in 0..15 : Quant(y, q) <= Quant(y, q + 1)
  /\ Quant(y, 0) = QD * Least(Nums) /\ Quant(y, QD) = QD * Most(Nums)
  /\ \A q \in 0..QD : Quant(y, q) + Quant(Sorted([i \in 1..Len(y) |-> -y[i]]), QD - q) = 0
Spread == (Idle /\ Len(Nums) > 1) => LET w == Variance(Nums, 1) IN w[1] >= 0 /\ (w[1] = 0) = (Least(Nums) = Most(Nums))
=============================================================================
