------------------------------ MODULE MC_Order ------------------------------
(* Builds every short sequence value by value: turning points alternate, the  *)
(* stable ordering exists and is unique, the incremental detection of turning *)
(* points and extremes agrees with the definitions.                           *)
EXTENDS Order
CONSTANTS N
Vals == {-2, 0, 1, 2}
VARIABLES s, down, up, val, pk, lo, hi
Init == s = << >> /\ down = FALSE /\ up = FALSE /\ val = << >> /\ pk = << >> /\ lo = -1 /\ hi = -1
Add(x) == LET n == Len(s) IN
  /\ s' = Append(s, x)
  /\ IF n = 0 THEN lo' = 0 /\ hi' = 0 /\ UNCHANGED <<down, up, val, pk>>
     ELSE /\ val' = IF down /\ x > s[n] THEN Append(val, n - 1) ELSE val
          /\ pk' = IF up /\ x < s[n] THEN Append(pk, n - 1) ELSE pk
          /\ down' = (x < s[n] \/ (x = s[n] /\ down))
          /\ up' = (x > s[n] \/ (x = s[n] /\ up))
          /\ lo' = IF x < s[lo + 1] THEN n ELSE lo
          /\ hi' = IF x > s[hi + 1] THEN n ELSE hi
Next == Len(s) < N /\ \E x \in Vals : Add(x)
Same == val = Valleys(s) /\ pk = Peaks(s) /\ lo = FirstMin(s) /\ hi = FirstMax(s)
Alternate == LET t == {k \in 1..Len(s) : IsValley(s, k) \/ IsPeak(s, k)} IN
  \A i \in t, j \in t : (i < j /\ \A h \in t : ~(i < h /\ h < j)) => (IsValley(s, i) <=> IsPeak(s, j))
Ranked == {Rank(<<s>>, k) : k \in 1..Len(s)} = 0..(Len(s) - 1)
Two == LET t == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]] IN {Rank(<<t, s>>, k) : k \in 1..Len(s)} = 0..(Len(s) - 1)
Mirror == LET t == [k \in 1..Len(s) |-> -s[k]] IN Valleys(t) = Peaks(s) /\ FirstMin(t) = FirstMax(s)
=============================================================================
