------------------------------ MODULE MC_Dist ------------------------------
(* The standard laws walked along the lattice from far below to far above:    *)
(* the density follows its own law and the probability grows by Simpson's     *)
(* rule; the relations used on traces hold along the way.                     *)
EXTENDS Dist
CONSTANT K
VARIABLES law, k, f, g, c
\* f and g are the densities at k/8 and (k+1)/8, c the probability below k/8
Small == {"normal", "uniform"}
F(l, j) == IF l = "normal" THEN NormalF(j) ELSE IF j \in 0..8 THEN One8 ELSE 0
Init == law \in Small /\ k = -K /\ f = F(law, -K) /\ g = F(law, 1 - K) /\ c = 0
Next == k < K /\ k' = k + 2 /\ law' = law /\ f' = F(law, k + 2) /\ g' = F(law, k + 3)
        /\ c' = c + (IF law = "normal" THEN Simpson(f, g, F(law, k + 2)) ELSE IF k \in 0..7 THEN 24 * (One8 \div 4) ELSE 0) \div 24
Positive == f >= 0 /\ c >= 0 /\ c <= One8 + 20
Half == (law = "normal" /\ k = 0) => Abs(c - One8 \div 2) <= 200
Whole == k = K => Abs(c - One8) <= 400
Ratio == (law = "normal" /\ k >= 0 /\ k <= 24) => Abs(g - FMul8(f, PowF(E128, 2 * k + 1))) <= 20
Even == (law = "normal") => F(law, k) = F(law, -k)
Back == \A j \in 0..16 : Abs(FMul8(Exp8(j), Exp8(-j)) - One8) <= 2000
=============================================================================
