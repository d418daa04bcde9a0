----------------------------- MODULE GenApprox ------------------------------
(* Exhaustive small stimuli: polynomials over every interval and rule, every  *)
(* grid, every knot layout and every triple of integer roots.                 *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
CONSTANTS R
VARIABLES sc
Head0 == [e |-> "reset", prop |-> "L07"]
Quad(fun, c, a, b, ng, fail) == [e |-> "op", f |-> "quad", fun |-> fun, c |-> c, a |-> a, b |-> b, ng |-> ng, tol |-> 10, max |-> 300, stats |-> 1, fail |-> fail]
Quads == \E a \in (-R)..R, b \in (-R)..R, ng \in {6, 8, 10, 12, 14}, k \in 1..6 :
  sc = <<Head0, Quad("poly", [i \in 1..k |-> IF i = k THEN 1 ELSE 0], 2 * a, 2 * b + 1, ng, 0), Quad("abs", <<1, k>>, a, b, ng, IF k = 1 THEN 2 * ng + a + R + 1 ELSE 0),
         Quad("pow", <<4 * k, 0>>, 2 * (a % 2), -2 * (b % 2), ng, 0)>>
Lags == \E nn \in 1..(2 * R + 4), g \in {"U", "G", "L"}, ne \in {0, 1}, cut \in {0, 700}, k \in 1..5 :
  /\ k <= nn + 1
  /\ sc = <<Head0, [e |-> "op", f |-> "lag", nn |-> nn, grid |-> g, noeta |-> ne, cut |-> cut, ns |-> 5, c |-> [i \in 1..k |-> IF i = k THEN 2 ELSE i % 2],
                    x |-> [i \in 1..17 |-> i - 9], bad |-> 0, order |-> 1 + ne]>>
Rep(v, n) == [i \in 1..n |-> v]
Knots(p, m) == Rep(0, p + 1) \o FoldLeft(LAMBDA t, k : t \o Rep(k, m[k]), <<>>, [k \in 1..Len(m) |-> k]) \o Rep(Len(m) + 1, p + 1)
Act(k, u, up, rec, pts) == [k |-> k, u |-> u, up |-> up, rec |-> rec, pts |-> pts, extra |-> 0]
Pts(n, d) == [i \in 1..n |-> [j \in 1..d |-> ((i * i + 3 * j) % 7) - 3]]
Spls == \E p \in 1..3, n \in 0..2, ks \in {0, 8} : \E m \in [1..n -> 0..p] : \E d \in 1..2 :
  LET kn == Knots(p, m)
      nb == Len(kn) - p - 1
      us == [i \in 1..(4 * (n + 1) + 1) |-> i - 1]
      at(u) == <<Act("bas", u, 0, 0, <<>>), Act("rec", u, 0, 0, <<>>), Act("der", u, p, 0, <<>>), Act("cur", u, p, 1, <<>>), Act("pt", u, 0, 0, <<>>), Act("cur", u, p, 0, <<>>), Act("pt", u, 0, 1, <<>>)>>
      all(dim) == <<Act("cp", 0, 0, 0, Pts(nb, dim))>> \o FoldLeft(LAMBDA t, u : t \o at(u), <<>>, us)
  IN sc = <<Head0, [e |-> "op", f |-> "bsp", p |-> p, kn |-> kn, ks |-> ks, h |-> all(d) \o <<Act("cp", 0, 0, 0, Pts(nb, 3 - d))>> \o at(2) \o at(4 * (n + 1))]>>
Cubs == \E a \in {1, -2}, r \in (-R)..R, m \in (-R)..R, ks \in {-7, 0, 8} :
  sc = <<Head0>> \o [d \in 1..(R + 2) |-> [e |-> "op", f |-> "cub", a |-> a, r |-> r, m |-> m, n |-> IF d = R + 2 THEN m * m + 1 ELSE m * m - (d - 1) * (d - 1), ks |-> ks]]
Fits == \E x \in [1..3 -> (-1)..2], y \in [1..3 -> {-2, 0, 1}], z \in {0, 1}, t \in {"f64", "i32"} :
  sc = <<Head0, [e |-> "op", f |-> "fit", t |-> t, x |-> x, y |-> y, zero |-> z]>>
Step(k, nn, c, f) == [k |-> k, nn |-> nn, c |-> c, x |-> <<>>, fail |-> f]
Ches == \E c \in {<<1, 2>>, <<1, 0, -1>>, <<0, 1, 1, 2>>, <<1, 0, 0, 0, 1>>, <<0, 0, 1, 0, 0, 0, 1>>}, d \in {<<2>>, <<0, 1, 0, 3, 0, 1>>}, n1 \in 0..(R + 2), n2 \in 0..(R + 2), k1 \in {"fun", "data", "adf", "add"}, k2 \in {"fun", "data", "adf", "add"} :
  sc = <<Head0, [e |-> "op", f |-> "che", max |-> R + 2, a |-> -3, b |-> 17, z |-> <<-4, -3, -2, -1, 0, 1, 2, 3, 4>>, h |-> <<Step(k1, n1, c, 0), Step(k2, n2, d, 0), Step(k1, n2, c, n1)>>]>>
Init == Quads \/ Lags \/ Spls \/ Cubs \/ Fits \/ Ches
Emit == PrintT(<<"GEN", ToJson(sc)>>)
Next == FALSE /\ UNCHANGED sc
=============================================================================
