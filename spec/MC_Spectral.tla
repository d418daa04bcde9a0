---------------------------- MODULE MC_Spectral ----------------------------
(* Sanity of the manufactured problems: outflow and source balance on boxes  *)
(* (divergence theorem, exact), mapped corners, fixed-point values.          *)
EXTENDS Spectral
CONSTANTS MaxDeg
VARIABLES i, j, k, a, b, corner
Mono(p, q) == PMake(4, LAMBDA x, y : IF x = p + 1 /\ y = q + 1 THEN 1 ELSE 0)
Init == /\ i \in 0..MaxDeg /\ j \in 0..(MaxDeg - i) /\ k \in {<<1, 1>>, <<2, 3>>}
        /\ a \in {-2, 0, 1} /\ b \in {-1, 1} /\ corner \in (1..4)
Next == UNCHANGED <<i, j, k, a, b, corner>>
\* 60 times the integral of x^n over [lo, hi]
Mom(n, lo, hi) == (60 \div (n + 1)) * (Pow(hi, n + 1) - Pow(lo, n + 1))
Area(p) == SumF(LAMBDA x : SumF(LAMBDA y : p[x][y] * Mom(x - 1, a, a + 2) * Mom(y - 1, b, b + 1), 5), 5)
OnX(p, x0) == 60 * SumF(LAMBDA x : SumF(LAMBDA y : p[x][y] * Pow(x0, x - 1) * Mom(y - 1, b, b + 1), 5), 5)
OnY(p, y0) == 60 * SumF(LAMBDA x : SumF(LAMBDA y : p[x][y] * Pow(y0, y - 1) * Mom(x - 1, a, a + 2), 5), 5)
Balance == LET p == Mono(i, j) IN
  Area(SourceOf(p, k, 0)) = OnX(OutflowOf(p, k, <<-1, 0>>), a) + OnX(OutflowOf(p, k, <<1, 0>>), a + 2)
                            + OnY(OutflowOf(p, k, <<0, -1>>), b) + OnY(OutflowOf(p, k, <<0, 1>>), b + 1)
Quad == <<<<-1, -1>>, <<2, 0>>, <<1, 2>>, <<-2, 1>>>>
Case == [quad |-> Quad, bend |-> <<<<0, 0>>, <<0, 0>>, <<1, 0>>, <<0, 0>>>>, d |-> 1, kind |-> "map"]
Ref(c) == CASE c = 1 -> <<-1, -1>> [] c = 2 -> <<1, -1>> [] c = 3 -> <<1, 1>> [] c = 4 -> <<-1, 1>>
Corners == \A t \in {1, 2} : Mapped4(Case, t, Ref(corner)[1] * Unit8, Ref(corner)[2] * Unit8) = 4 * Unit8 * Quad[corner][t]
\* normals point away from the opposite corners
Outward == \A s \in 1..4 : LET n == Normal(Quad, s)
                               p == Quad[Ends(s)[1]]
                           IN \A c \in 1..4 : n[1] * (Quad[c][1] - p[1]) + n[2] * (Quad[c][2] - p[2]) <= 0
\* values at multiples of one half, exact in units of 1e-6
Values == LET p == Mono(i, j) IN Near(PValue(p, a * 50000000, b * 50000000, 100), (1000000 \div Pow(2, i + j)) * Pow(a, i) * Pow(b, j), 1)
=============================================================================
