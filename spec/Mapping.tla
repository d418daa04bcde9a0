------------------------------ MODULE Mapping ------------------------------
(* Maps of the square and the cube that blend given boundaries, and metrics.  *)
(* Boundaries are restrictions of polynomials; a blended monomial is the      *)
(* monomial minus the product of its deviations from the end values.          *)
EXTENDS Base
One3 == 64                                    \* one unit per factor: values at multiples of 1/4, cubed
\* 64 times the k-th derivative of x^a at m/4
Fact(a, k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN a ELSE a * (a - 1)
Mono(a, k, m) == IF k > a THEN 0 ELSE Fact(a, k) * Pow(m, a - k) * Pow(4, 3 - (a - k))
\* the straight line through the values of x^a at -1 and 1
Line(a, k, m) == IF a % 2 = 0 THEN Mono(0, k, m) ELSE Mono(1, k, m)
Dev(a, k, m) == Mono(a, k, m) - Line(a, k, m)
\* 64^3 times a derivative (orders k) of the blended map of component terms c at point m/4
Blend(c, dim, k, m) ==
  SumF(LAMBDA n : LET t == c[n]
                      plain == Mono(t[1], k[1], m[1]) * Mono(t[2], k[2], m[2]) * (IF dim = 3 THEN Mono(t[3], k[3], m[3]) ELSE One3)
                      dev == Dev(t[1], k[1], m[1]) * Dev(t[2], k[2], m[2]) * (IF dim = 3 THEN Dev(t[3], k[3], m[3]) ELSE One3)
                  IN t[4] * (plain - dev), Len(c))
Value(c, k, m, dim) == SumF(LAMBDA n : c[n][4] * Mono(c[n][1], k[1], m[1]) * Mono(c[n][2], k[2], m[2]) * (IF dim = 3 THEN Mono(c[n][3], k[3], m[3]) ELSE One3), Len(c))
Zero3 == <<0, 0, 0>>
First(dim) == IF dim = 2 THEN <<<<1, 0, 0>>, <<0, 1, 0>>>> ELSE <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Second(dim) == IF dim = 2 THEN <<<<2, 0, 0>>, <<0, 2, 0>>, <<1, 1, 0>>>>
               ELSE <<<<2, 0, 0>>, <<0, 2, 0>>, <<0, 0, 2>>, <<1, 1, 0>>, <<1, 0, 1>>, <<0, 1, 1>>>>
Corner(dim) == IF dim = 2 THEN <<<<-4, -4>>, <<4, -4>>, <<4, 4>>, <<-4, 4>>>>
               ELSE <<<<-4, -4, -4>>, <<4, -4, -4>>, <<4, 4, -4>>, <<-4, 4, -4>>, <<-4, -4, 4>>, <<4, -4, 4>>, <<4, 4, 4>>, <<-4, 4, 4>>>>
Vec(terms, dim, k, m) == [i \in 1..dim |-> Blend(terms[i], dim, k, m)]

(* ---------------- sample geometries, seven decimals ---------------- *)
\* cosines of multiples of pi/16, also times pi/4 and its square
Cos == <<10000000, 9807853, 9238795, 8314696, 7071068, 5555702, 3826834, 1950903, 0, -1950903, -3826834, -5555702, -7071068, -8314696, -9238795, -9807853, -10000000>>
CosQ == <<7853982, 7703070, 7256133, 6530347, 5553604, 4363438, 3005589, 1532236, 0, -1532236, -3005589, -4363438, -5553604, -6530347, -7256133, -7703070, -7853982>>
CosQQ == <<6168503, 6049977, 5698953, 5128923, 4361790, 3427037, 2360584, 1203415, 0, -1203415, -2360584, -3427037, -4361790, -5128923, -5698953, -6049977, -6168503>>
\* tab: 0, 1, 2 derivatives; k: angle in units of pi/16
C(tab, k) == CASE tab = 0 -> Cos[k + 1] [] tab = 1 -> CosQ[k + 1] [] tab = 2 -> CosQQ[k + 1]
S(tab, k) == IF k <= 8 THEN C(tab, 8 - k) ELSE C(tab, k - 8)
\* 8 times the j-th derivative in angle direction of (cos, sin) * rho8/8, one angular step = f * pi/4 per unit
Circ(j, f, k) == CASE j = 0 -> <<C(0, k), S(0, k)>> [] j = 1 -> <<-f * S(1, k), f * C(1, k)>> [] j = 2 -> <<-(f * f) * C(2, k), -(f * f) * S(2, k)>>
\* eight times the radius between a and b at r = m/4, and its derivatives
Rad8(a, b, j, m) == CASE j = 0 -> a * (4 - m) + b * (4 + m) [] j = 1 -> 4 * (b - a) [] j = 2 -> 0
Ring(a, b, f, k, m) == [i \in 1..2 |-> (Rad8(a, b, k[1], m[1]) * Circ(k[2], f, f * (m[2] + 4))[i]) \div 8]
Hat8(end, j, m) == CASE j = 0 -> 4 + end * m [] j = 1 -> 4 * end [] j = 2 -> 0
Lozenge(a, b, k, m) ==
  LET z == 10000000 IN
  [i \in 1..2 |-> (Hat8(-1, k[1], m[1]) * a * Circ(k[2], 1, m[2] + 4)[i]) \div 8
                  + (Hat8(1, k[1], m[1]) * Hat8(IF i = 1 THEN -1 ELSE 1, k[2], m[2]) * b * (z \div 8)) \div 8]
\* 64 times multilinear interpolation
Quad64(q, k, m) == [i \in 1..2 |-> LET h(e, d) == Hat8(e, k[d], m[d]) IN
  h(-1, 1) * h(-1, 2) * q[i] + h(1, 1) * h(-1, 2) * q[2 + i] + h(1, 1) * h(1, 2) * q[4 + i] + h(-1, 1) * h(1, 2) * q[6 + i]]
Brick64(q, k, m) == [i \in 1..3 |-> IF \A d \in 1..3 : d # i => k[d] = 0 THEN 8 * q[i] * Hat8(1, k[i], m[i]) ELSE 0]
Ring3(q, k, m) == LET w == Ring(q[1], q[2], 1, <<k[2], k[3]>>, <<m[2], m[3]>>) IN
  <<IF k[2] = 0 /\ k[3] = 0 THEN q[3] * Hat8(1, k[1], m[1]) * 1250000 ELSE 0, IF k[1] = 0 THEN w[1] ELSE 0, IF k[1] = 0 THEN w[2] ELSE 0>>
Sample(kind, q, k, m) ==
  CASE kind = "quad" -> Quad64(q, k, m) [] kind = "brick" -> Brick64(q, k, m)
    [] kind = "quarter" -> Ring(q[1], q[2], 1, k, m) [] kind = "half" -> Ring(q[1], q[2], 2, k, m)
    [] kind = "lozenge" -> Lozenge(q[1], q[2], k, m) [] kind = "ring3" -> Ring3(q, k, m)
Tol(kind) == IF kind \in {"quad", "brick"} THEN 0 ELSE 12
SDim(kind) == IF kind \in {"brick", "ring3"} THEN 3 ELSE 2

(* ---------------- metrics, integer base vectors ---------------- *)
Dot(a, b) == SumF(LAMBDA i : a[i] * b[i], Len(a))
Gram(d) == [i \in 1..Len(d) |-> [j \in 1..Len(d) |-> Dot(d[i], d[j])]]
Cof(g) == LET n == Len(g)
              o(i) == IF n = 2 THEN <<3 - i>> ELSE <<(i % 3) + 1, ((i + 1) % 3) + 1>>
          IN [i \in 1..n |-> [j \in 1..n |->
               IF n = 2 THEN (IF i = j THEN g[3 - i][3 - i] ELSE -g[i][j])
               ELSE g[o(i)[1]][o(j)[1]] * g[o(i)[2]][o(j)[2]] - g[o(i)[1]][o(j)[2]] * g[o(i)[2]][o(j)[1]]]]
Det(g) == Dot(g[1], Cof(g)[1])
Pair(n, i, j) == IF i = j THEN i ELSE IF n = 2 THEN 3 ELSE IF i + j = 3 THEN 4 ELSE IF i + j = 4 THEN 5 ELSE 6
=============================================================================
