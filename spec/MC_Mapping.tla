---------------------------- MODULE MC_Mapping ----------------------------
(* The blended map reproduces its boundaries, its derivatives are exact, and  *)
(* the metric formulas satisfy the identities that define them.               *)
EXTENDS Mapping
CONSTANTS MaxDeg, R
VARIABLES a, b, c, m, v
Init == /\ a \in 0..MaxDeg /\ b \in 0..MaxDeg /\ c \in 0..MaxDeg
        /\ m \in {-4, -1, 4} \X {-4, 2} \X {1, 4}
        /\ v \in IF a = MaxDeg /\ b = 0 /\ c = 0 THEN {<<<<p, q>>, <<r, s>>>> : p \in 0..R, q \in -R..R, r \in -1..1, s \in 0..R} ELSE {<<<<2, 1>>, <<-1, 3>>>>}
Next == UNCHANGED <<a, b, c, m, v>>
T == << <<a, b, c, 1>> >>
Edge == ((m[1] \in {-4, 4} \/ m[2] \in {-4, 4}) => Blend(T, 2, Zero3, m) = Value(T, Zero3, m, 2))
        /\ ((\E d \in 1..3 : m[d] \in {-4, 4}) => Blend(T, 3, Zero3, m) = Value(T, Zero3, m, 3))
Straight == /\ ((a <= 1 \/ b <= 1) => Blend(T, 2, Zero3, m) = Value(T, Zero3, m, 2))
            /\ ((a <= 1 \/ b <= 1 \/ c <= 1) => Blend(T, 3, Zero3, m) = Value(T, Zero3, m, 3))
Shift(d, h) == [i \in 1..3 |-> IF i = d THEN m[i] + h ELSE m[i]]
\* five-point differences are exact for cubics
Slope(k, d) == 8 * (Blend(T, 3, k, Shift(d, 1)) - Blend(T, 3, k, Shift(d, -1))) - (Blend(T, 3, k, Shift(d, 2)) - Blend(T, 3, k, Shift(d, -2)))
Plus(k, d) == [k EXCEPT ![d] = @ + 1]
Deriv == \A d \in 1..3 : Slope(Zero3, d) = 3 * Blend(T, 3, Plus(Zero3, d), m)
                         /\ \A f \in 1..3 : Slope(Plus(Zero3, f), d) = 3 * Blend(T, 3, Plus(Plus(Zero3, f), d), m)
Dual == LET g == Gram(v)
            w == Cof(g)
            ctr == [i \in 1..2 |-> [x \in 1..2 |-> SumF(LAMBDA j : w[i][j] * v[j][x], 2)]]
            j == v[1][1] * v[2][2] - v[1][2] * v[2][1]
        IN Det(g) = j * j /\ \A i \in 1..2, k \in 1..2 : Dot(ctr[i], v[k]) = IF i = k THEN Det(g) ELSE 0
=============================================================================
