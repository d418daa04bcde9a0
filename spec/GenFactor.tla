----------------------------- MODULE GenFactor -----------------------------
(* Every 2x2 matrix of small integers and every symmetric 3x3 matrix of       *)
(* signs, given to every operation.                                           *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS R
VARIABLES sc
E2 == -R..R
P(x) == <<x, 0>>
M2(p, q, r, s) == <<<<P(p), P(q)>>, <<P(r), P(s)>>>>
S3(p, q, r, s, t, u) == <<<<P(p), P(q), P(r)>>, <<P(q), P(s), P(t)>>, <<P(r), P(t), P(u)>>>>
Op(f, n, a, up) == [e |-> "op", f |-> f, cx |-> 0, up |-> up, bad |-> 0, n |-> n, big |-> n, a |-> a,
                    b |-> SubSeq(<<<<P(1), P(0)>>, <<P(-1), P(2)>>, <<P(0), P(1)>>>>, 1, n), v |-> IF n = 2 THEN <<P(1), P(-2)>> ELSE <<P(1), P(-2), P(3)>>]
Gen2(op) == [op EXCEPT !.b = <<<<P(1), P(1)>>, <<P(-1), P(1)>>>>]
C(op) == [op EXCEPT !.cx = 1]
H == [e |-> "reset", prop |-> "L02"]
Sq(n, a) == <<Op("inv", n, a, 0), C(Op("inv", n, a, 0)), Op("pinv", n, a, 0), Op("solve", n, a, 0), C(Op("solve", n, a, 0)), Op("svd", n, a, 0), C(Op("svd", n, a, 0)),
              Op("eig", n, a, 0), C(Op("eig", n, a, 0)), Op("eiglr", n, a, 0), C(Op("eiglr", n, a, 0)), Op("eigval", n, a, 0),
              Op("sinv", n, a, 0), Op("gji", n, a, 0), Op("gjs", n, a, 0), Op("ssol", n, a, 0), [Op("sinv", n, a, 0) EXCEPT !.big = 5]>>
Tr(n, a) == <<Op("chol", n, a, 0), Op("chol", n, a, 1), Op("sym", n, a, 0), Op("sym", n, a, 1), C(Op("chol", n, a, 1)), C(Op("sym", n, a, 0))>>
Pencil(a) == <<Gen2(Op("gen", 2, a, 0)), Gen2(Op("genlr", 2, a, 0)), C(Gen2(Op("genlr", 2, a, 0)))>>
All == {<<H>> \o Sq(2, M2(p, q, r, s)) \o Tr(2, M2(p, q, r, s)) \o Pencil(M2(p, q, r, s)) : p \in E2, q \in E2, r \in E2, s \in E2}
       \cup {<<H>> \o Tr(3, S3(p, q, r, s, t, u)) \o <<Op("jacobi", 3, S3(p, q, r, s, t, u), 0)>> : p \in 0..R, q \in -1..1, r \in -1..1, s \in -1..1, t \in -1..1, u \in 0..R}
Init == sc \in All
Emit == PrintT(<<"GEN", ToJson(sc)>>)
Next == FALSE /\ UNCHANGED sc
=============================================================================
