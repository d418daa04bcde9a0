------------------------------- MODULE Order -------------------------------
(* Orderings of finite sequences of numbers.  Codes: 999 not a number,        *)
(* 900 and -900 the infinities, 901 the negative zero.  Indices start at 0.   *)
EXTENDS Base
NaN == 999
V(c) == IF c = 901 THEN 0 ELSE c          \* value of a code; not-a-number is the greatest
Plain(s) == [k \in 1..Len(s) |-> V(s[k])]
Count(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : Count(s, s[k]) = Count(t, s[k])
Ascending(s) == \A k \in 2..Len(s) : s[k - 1] <= s[k]
\* the keys are compared in the order given; ties keep the original order
Before(keys, i, j) ==
  LET d == SelectSeq(Idx(Len(keys)), LAMBDA k : V(keys[k][i]) # V(keys[k][j]))
  IN IF d = << >> THEN i < j ELSE V(keys[d[1]][i]) < V(keys[d[1]][j])
Rank(keys, i) == Cardinality({j \in 1..Len(keys[1]) : Before(keys, j, i)})
\* p is the stable ordering of the keys
IsArgSort(p, keys) == Len(p) = Len(keys[1]) /\ (\A k \in 1..Len(p) : p[k] \in 0..(Len(p) - 1)) /\ \A k \in 1..Len(p) : Rank(keys, p[k] + 1) = k - 1
First(s, ok(_)) == LET w == {k \in 1..Len(s) : ok(k)} IN IF w = {} THEN -1 ELSE (CHOOSE k \in w : \A h \in w : k <= h) - 1
FirstMin(s) == First(s, LAMBDA k : \A h \in 1..Len(s) : s[k] <= s[h])
FirstMax(s) == First(s, LAMBDA k : \A h \in 1..Len(s) : s[k] >= s[h])
FirstAbs(s) == First(s, LAMBDA k : \A h \in 1..Len(s) : Abs(s[k]) >= Abs(s[h]))
\* start of the plateau that ends at k
Left(s, k) == FoldLeft(LAMBDA p, h : IF s[h] = s[k] THEN p ELSE h, 0, Idx(k))
IsValley(s, k) == k < Len(s) /\ s[k + 1] > s[k] /\ Left(s, k) > 0 /\ s[Left(s, k)] > s[k]
IsPeak(s, k) == k < Len(s) /\ s[k + 1] < s[k] /\ Left(s, k) > 0 /\ s[Left(s, k)] < s[k]
Places(s, ok(_)) == LET w == SelectSeq(Idx(Len(s)), LAMBDA k : ok(k)) IN [k \in 1..Len(w) |-> w[k] - 1]
Valleys(s) == Places(s, LAMBDA k : IsValley(s, k))
Peaks(s) == Places(s, LAMBDA k : IsPeak(s, k))
Ok(e) ==
  LET x == e.x
      f == e.f
  IN CASE f = "tuple" -> e.st = "ok" /\ SameBag(e.y, x) /\ SameBag(e.z, x) /\ Ascending(e.y) /\ Ascending(e.z)
       [] f = "arg1" -> e.st = "ok" /\ IsArgSort(e.y, <<x>>)
       [] f = "arg2" -> IF Len(x) # Len(e.x2) THEN e.st = "panic" ELSE e.st = "ok" /\ IsArgSort(e.y, <<x, e.x2>>)
       [] f = "arg3" -> IF Len(x) # Len(e.x2) \/ Len(x) # Len(e.x3) THEN e.st = "panic" ELSE e.st = "ok" /\ IsArgSort(e.y, <<x, e.x2, e.x3>>)
       [] f = "ends" -> e.st = "ok" /\ e.y = <<FirstMin(x), FirstMax(x)>> /\ e.z = e.y
       [] f = "absmax" -> e.st = "ok" /\ e.y = FirstAbs(x)
       [] f = "turns" -> e.st = "ok" /\ e.y = Valleys(x) /\ e.z = Peaks(x) /\ e.q = <<FirstMin(x), FirstMax(x)>>
=============================================================================
