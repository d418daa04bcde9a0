----------------------------- MODULE Spectral -----------------------------
(* Spectral collocation on intervals, rectangles and mapped quadrilaterals:  *)
(* a problem built from a polynomial field must return that field.           *)
EXTENDS Polys
\* a problem is consistent with its field phi
SourceOf(phi, k, al) == PAdd(PAdd(PScale(-k[1], PDx(PDx(phi))), PScale(-k[2], PDy(PDy(phi)))), PScale(al, phi))
OutflowOf(phi, k, n) == PAdd(PScale(-k[1] * n[1], PDx(phi)), PScale(-k[2] * n[2], PDy(phi)))
\* outward normals of the sides left, right, bottom, top
Ends(s) == CASE s = 1 -> <<4, 1>> [] s = 2 -> <<2, 3>> [] s = 3 -> <<1, 2>> [] s = 4 -> <<3, 4>>
Normal(q, s) == LET a == q[Ends(s)[1]]
                    b == q[Ends(s)[2]]
                IN <<b[2] - a[2], a[1] - b[1]>>
Sign(v) == IF v > 0 THEN 1 ELSE IF v < 0 THEN -1 ELSE 0
NormalOf(c, s) == LET n == Normal(c.quad, s) IN IF c.kind = "map" THEN n ELSE <<Sign(n[1]), Sign(n[2])>>
Consistent(c) ==
  /\ c.src = SourceOf(c.phi, c.k, c.al)
  /\ \A s \in 1..4 : LET n == NormalOf(c, s) IN c.flux[s] = OutflowOf(c.phi, c.k, n) /\ c.len2[s] = n[1] * n[1] + n[2] * n[2]

NSides(c) == IF c.kind = "1d" THEN 2 ELSE 4
WellSet(c) == \A s \in 1..NSides(c) : c.sides[s] \in {"v", "f"}
HasValue(c) == \E s \in 1..NSides(c) : c.sides[s] = "v"
\* the collocation equations determine the field
Determined(c) ==
  /\ HasValue(c) \/ (c.al > 0 /\ c.kind # "map")
  \* fluxes on skewed sides may leave few-point collocation equations singular
  /\ ((c.kind = "map" /\ \E s \in 1..4 : c.sides[s] = "f") => c.gx >= 4 /\ c.gy >= 4)
  /\ (c.gx = 2 => ~(c.sides[1] = "f" /\ c.sides[2] = "f"))
  /\ (c.gy = 2 => ~(c.sides[3] = "f" /\ c.sides[4] = "f"))

(* ---------------- points ---------------- *)
\* twice/four times the position of reference point (r, s), eight decimals, from the corners and bulges
Doubled(c, r) == (c.box[1] + c.box[2]) * (Unit8 \div c.d) + (c.box[2] - c.box[1]) * (r \div c.d)
DoubledY(c, s) == (c.box[3] + c.box[4]) * (Unit8 \div c.d) + (c.box[4] - c.box[3]) * (s \div c.d)
Mapped4(c, a, r, s) ==
  LET u == Unit8 \div c.d
      v(i) == c.quad[i][a]
      rs == FMul8(r, s)
      bl(k) == c.bend[k][a]
      r2 == Unit8 - FMul8(r, r)
      s2 == Unit8 - FMul8(s, s)
  IN (v(1) + v(2) + v(3) + v(4)) * u + (-v(1) + v(2) + v(3) - v(4)) * (r \div c.d) + (-v(1) - v(2) + v(3) + v(4)) * (s \div c.d)
     + (v(1) - v(2) + v(3) - v(4)) * (rs \div c.d)
     + 2 * ((bl(1) * FMul8(Unit8 - r, s2)) \div c.d + (bl(2) * FMul8(Unit8 + r, s2)) \div c.d
            + (bl(3) * FMul8(Unit8 - s, r2)) \div c.d + (bl(4) * FMul8(Unit8 + s, r2)) \div c.d)
=============================================================================
