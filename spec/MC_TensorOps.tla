--------------------------- MODULE MC_TensorOps ---------------------------
(* Identities between the operations, over all small tensors.                 *)
EXTENDS TensorOps
CONSTANTS K
VARIABLES ma, mb, n
Unit4(p) == [k \in 1..81 |-> IF k = p THEN 1 ELSE 0]
B2 == {[k \in 1..9 |-> IF k = p THEN v ELSE IF k = q THEN 1 ELSE 0] : p \in 1..9, q \in {1, 4, 8}, v \in {-1, 2}}
Init == /\ ma \in {x \in [1..9 -> -1..1] : \A k \in (K + 1)..9 : x[k] = ((k * k) % 3) - 1} /\ mb = 0 /\ n = 0
Next == n = 0 /\ n' = 1 /\ mb' \in B2 /\ ma' = ma
S6 == TLCEval([c \in {"ii", "tt", "jj", "iso", "sym", "skew", "dev", "symdev"} |-> Six(c)])
Iden2 == <<1, 0, 0, 0, 1, 0, 0, 0, 1>>
\* cofactors invert; products of determinants; the characteristic equation
Cofactors(a) == Dot22(a, Adj(a)) = Scal(Det(a), Iden2)
Products(a, b) == Det(Dot22(a, b)) = Det(a) * Det(b) /\ Dd22(a, b) = Tr(Dot22(a, Transp(b)))
Cayley(a) == LET s == TLCEval(Dot22(a, a))  o == TLCEval(Own(a))  c == TLCEval(Dot22(s, a))
          IN [k \in 1..9 |-> c[k] - (o[1] * s[k]) + (o[7] * a[k]) - (o[2] * Iden2[k])] = Scal(0, Iden2)
\* deviator invariants from the invariants of the tensor
Devs(a) == LET o == Own(a) IN o[9] = (2 * ((o[1] * o[1]) - (3 * o[7]))) /\ o[10] = ((2 * o[1] * o[1] * o[1]) - (9 * o[1] * o[7])) + (27 * o[2])
Axial(a) == \A u \in {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>} :
           [i \in 1..3 |-> S1(LAMBDA j : (I2(a, i - 1, j) - I2(a, j, i - 1)) * V(u, j))] = Cross(Omega2(a), u)
\* what the constant tensors do
Consts(a) ==
          /\ Dd42(TLCEval(S6["ii"]), a) = Scal(6, a) /\ Dd42(TLCEval(S6["tt"]), a) = Scal(6, Transp(a)) /\ Dd42(TLCEval(S6["jj"]), a) = Scal(6 * Tr(a), Iden2)
          /\ Dd42(TLCEval(S6["dev"]), a) = Scal(2, Dev3(a)) /\ Dd42(TLCEval(S6["iso"]), a) = Scal(2 * Tr(a), Iden2)
          /\ Lin(1, Dd42(TLCEval(S6["sym"]), a), 1, Dd42(TLCEval(S6["skew"]), a)) = Scal(6, a)
          /\ Dd42(TLCEval(S6["symdev"]), a) = LET d == TLCEval(Dev3(a)) IN Lin(1, d, 1, Transp(d))
\* A (.) B contracts like a product from both sides
Mixed(a, b) == Dd42(TLCEval(Od(a, b)), b) = Dot22(TLCEval(Dot22(a, b)), TLCEval(Transp(b))) /\ Dd42(TLCEval(Ud(a, b)), b) = LET t == TLCEval(Transp(b)) IN Dot22(TLCEval(Dot22(a, t)), t)
Dyads(a, b) == Dd44(TLCEval(Dy22(a, b)), TLCEval(Dy22(b, a))) = Scal(Dd22(b, b), Dy22(a, a)) /\ Dd24(a, TLCEval(Dy22(a, b))) = Scal(Dd22(a, a), b)
One == n = 0 => \A a \in {ma} : Cofactors(a) /\ Cayley(a) /\ Devs(a) /\ Axial(a) /\ Consts(a)
Two == n = 1 => \A a \in {ma}, b \in {mb} : Products(a, b) /\ Mixed(a, b) /\ Dyads(a, b)
=============================================================================
