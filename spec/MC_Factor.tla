----------------------------- MODULE MC_Factor -----------------------------
(* The arithmetic behind the factorization checks: fraction-free elimination  *)
(* is the determinant, the adjugate inverts, definiteness follows the minors, *)
(* and the defining equations reject results that are slightly wrong.         *)
EXTENDS Factor
CONSTANTS R
VARIABLES a, dx
Ent == {<<p, q>> : p \in -R..R, q \in {0, 1}}
Init == /\ a \in {<<<<p, q, r>>, <<s, <<1, 0>>, <<-1, 0>>>>, <<<<0, 0>>, t, <<2, 0>>>>>> : p \in Ent, q \in Ent, r \in {<<0, 0>>, <<1, -1>>}, s \in Ent, t \in {<<0, 0>>, <<-1, 0>>, <<0, 2>>}}
        /\ dx \in {-1, 1}
Next == UNCHANGED <<a, dx>>
Leibniz(m) == CSumF(LAMBDA k : LET p == <<<<1, 2, 3, 1>>, <<2, 3, 1, 1>>, <<3, 1, 2, 1>>, <<2, 1, 3, -1>>, <<1, 3, 2, -1>>, <<3, 2, 1, -1>>>>[k]
                                   z == CMul(m[1][p[1]], CMul(m[2][p[2]], m[3][p[3]]))
                               IN <<p[4] * z[1], p[4] * z[2]>>, 6)
DetOk == Det(a) = Leibniz(a)
ScaleM(z, m) == Mat(Len(m), Len(m), LAMBDA i, j : CMul(z, m[i][j]))
AdjOk == Prod(a, Adjugate(a)) = ScaleM(Det(a), Eye(3)) /\ Prod(Adjugate(a), a) = ScaleM(Det(a), Eye(3))
\* a Gram matrix is never indefinite; it is definite exactly when its factor is regular
Gram == Prod(a, Adj(a))
GramOk == Definite(Gram) = IF Singular(a) THEN 0 ELSE 1
\* an inverse is accepted, and a disturbed one is not
Unimodular == Det(a) \in {<<1, 0>>, <<-1, 0>>}
InvSharp == Unimodular =>
   LET x == FixM(ScaleM(Det(a), Adjugate(a)))
       y == [x EXCEPT ![2][1] = <<x[2][1][1] + dx * 100, x[2][1][2]>>]
   IN InvOk(a, x) /\ ~InvOk(a, y) /\ PinvOk(a, x) /\ ~PinvOk(a, [x EXCEPT ![2][1] = <<x[2][1][1] + dx * 1000, x[2][1][2]>>]) /\ SolOk(a, x, Eye(3))
\* a triangular matrix carries its eigenvalues on the diagonal
Tri == Mat(3, 3, LAMBDA i, j : IF i <= j THEN a[i][j] ELSE CZ)
EigSharp == LET l == [k \in 1..3 |-> Fix(Tri[k][k])] IN
            PowersOk(Tri, l) /\ ~PowersOk(Tri, [l EXCEPT ![1] = <<l[1][1] + dx * 100, l[1][2]>>])
            /\ PairOk(Tri, l, <<<<Fix(One)>>, <<CZ>>, <<CZ>>>>, 1, 0)
            /\ (Tri[1][1] # Tri[2][2] => ~PowersOk(Tri, [l EXCEPT ![2] = l[1]]))
=============================================================================
