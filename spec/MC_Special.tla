----------------------------- MODULE MC_Special -----------------------------
(* The three-term recurrences as a system that grows the polynomials of a     *)
(* family one order at a time, and the remainder by repeated subtraction of   *)
(* scaled divisors; the relations used on traces are invariants.              *)
EXTENDS Special
CONSTANTS N, R
VARIABLES w, fam, n, a, b, x, y, r
Poly == w = "poly"
Init ==
  \/ /\ w = "poly" /\ fam \in {"T", "U", "P"} /\ n = 1 /\ a = <<<<1, 1>>>> /\ b = P1(fam) /\ x = 0 /\ y = 1 /\ r = 0
  \/ /\ w = "mod" /\ fam = "" /\ n = 0 /\ a = <<>> /\ b = <<>> /\ x \in (-R)..R /\ y \in ((-R)..R) \ {0} /\ r = Abs(x)
Grow == Poly /\ n < N /\ n' = n + 1 /\ a' = b /\ b' = PNext(fam, n, a, b) /\ UNCHANGED <<w, fam, x, y, r>>
\* subtract the divisor times the largest power of two that still fits
Scale == LET q == r \div Abs(y) IN Pow(2, BitLen(q) - 1)
Cut == w = "mod" /\ r >= Abs(y) /\ r' = r - Abs(y) * Scale /\ UNCHANGED <<w, fam, n, a, b, x, y>>
Next == Grow \/ Cut
Sum3(p, q, s) == PAdd(PAdd(p, q), s)
Square1(p) == PAdd(p, PScale(<<-1, 1>>, PX(PX(p))))   \* (1 - x^2) p
I(k) == <<k, 1>>
Equation ==
  Poly => LET d == TLCEval(PDer(b))
              dd == TLCEval(PDer(d))
              c == CASE fam = "T" -> <<-1, n * n>> [] fam = "U" -> <<-3, n * (n + 2)>> [] OTHER -> <<-2, n * (n + 1)>>
          IN PZero(Sum3(Square1(dd), PScale(I(c[1]), PX(d)), PScale(I(c[2]), b)))
Slope ==
  Poly => LET d == TLCEval(PDer(b)) IN
    CASE fam = "T" -> PZero(PAdd(d, PScale(I(-n), Family("U", n - 1))))
      [] fam = "P" -> PZero(Sum3(Square1(d), PScale(I(-n), a), PScale(I(n), PX(b))))
      [] OTHER -> PZero(Sum3(Square1(d), PScale(I(n + 1), Family("T", n + 1)), PScale(I(-1), PX(b))))
Parity == Poly => \A i \in 1..Len(b) : (i - 1 - n) % 2 # 0 => b[i][1] = 0
AtOne == Poly => PAt(b, I(1)) = (IF fam = "U" THEN I(n + 1) ELSE I(1))
Same == Poly => Family(fam, n) = b /\ Len(b) = n + 1
\* a polynomial of the family of Legendre is orthogonal to all lower powers
Mean(p) == QSum(LAMBDA i : IF i % 2 = 1 THEN QMul(p[i], <<2, i>>) ELSE Q0, Len(p))
Orthogonal == (Poly /\ fam = "P" /\ n <= 6) => \A k \in 0..(n - 1) : Mean(FoldLeft(LAMBDA p, i : PX(p), b, Idx(k)))[1] = 0
Remainder == w = "mod" => /\ r >= 0 /\ (Abs(x) - r) % Abs(y) = 0
                          /\ r < Abs(y) => Sgn(x) * r = Sgn(x) * (Abs(x) % Abs(y))
=============================================================================
