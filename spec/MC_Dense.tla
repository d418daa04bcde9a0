------------------------------ MODULE MC_Dense ------------------------------
(* Programs of dense operations over a small pool: the operations agree with  *)
(* one another through the laws of linear algebra, whatever ran before.       *)
EXTENDS Dense
CONSTANTS Steps, Wide
VARIABLES x, y, u, n
Num == IF Wide THEN {CZ, One, Neg1, <<1, 1>>} ELSE {CZ, One, <<-1, 1>>}
Vals == {<<1, 0>>, <<0, 2>>}
V2 == {<<p, q>> : p \in {One}, q \in Vals}
MkM(p, q, r, s) == [r |-> 2, c |-> 2, a |-> <<<<p, q>>, <<r, s>>>>]
Init == /\ x \in {MkM(p, q, r, s) : p \in Num, q \in Num, r \in IF Wide THEN {One, <<2, -1>>} ELSE {<<2, -1>>}, s \in Num}
        /\ y \in {MkM(p, <<0, -1>>, q, <<2, 0>>) : p \in {CZ, One}, q \in {One}} /\ u \in V2 /\ n = 0
Op(f, a, b) == [f |-> f, s |-> <<a, b>>, up |-> 1, sec |-> 0, ml |-> 2, mu |-> 2, kind |-> "fro"]
R1(op, o, i) == Result(op, <<o>>, i)[1]
Small(m) == ~Large(m, 30)
Put(m) == Small(m) /\ x' = m /\ UNCHANGED <<y, u>>
Next == /\ n < Steps /\ n' = n + 1
        /\ \/ Put(R1(Op("mul", One, Neg1), x, <<y, x>>)) \/ Put(R1(Op("trans", One, One), x, <<x>>))
           \/ Put(R1(Op("tmul", One, CZ), x, <<x, y>>)) \/ Put(R1(Op("outeru", One, CZ), x, <<u, u>>))
           \/ Put(R1(Op("herk", One, One), RealDiag(x), <<y>>)) \/ Put(R1(Op("syrk", Neg1, One), x, <<y>>))
           \/ (u' = R1(Op("mvu", One, One), u, <<y, u>>) /\ ~Large(u', 30) /\ UNCHANGED <<x, y>>)
Eye == R1(Op("eye", One, CZ), x, << >>)
M(a, b) == R1(Op("mul", One, CZ), x, <<a, b>>)
Laws == /\ T(M(x, y)) = M(T(y), T(x)) /\ H(M(x, y)) = M(H(y), H(x)) /\ M(Eye, x) = x /\ M(x, Eye) = x
        /\ R1(Op("tmul", One, CZ), x, <<x, y>>) = M(T(x), y)
        /\ R1(Op("mv", One, CZ), u, <<M(x, y), u>>) = R1(Op("mv", One, CZ), u, <<x, R1(Op("mv", One, CZ), u, <<y, u>>)>>)
        /\ R1(Op("vm", One, CZ), u, <<u, x>>) = R1(Op("mv", One, CZ), u, <<T(x), u>>)
        /\ R1(Op("outer", One, CZ), x, <<u, u>>) = T(R1(Op("outer", One, CZ), x, <<u, u>>))
        /\ R1(Op("sumr", One, CZ), u, <<x>>) = R1(Op("sumc", One, CZ), u, <<T(x)>>)
        /\ R1(Op("sumc", One, CZ), u, <<x>>) = MatVec(x, <<One, One>>)
\* both triangles of a rank operation together are the full symmetric (Hermitian) product
Both(f) == LET z == R1(Op("scale", CZ, CZ), x, << >>)
               hi == R1(Op(f, One, CZ), z, <<x>>)
               lo == R1([Op(f, One, CZ) EXCEPT !.up = 0], z, <<x>>)
           IN MakeM(2, 2, LAMBDA i, j : IF i <= j THEN At(hi, i, j) ELSE At(lo, i, j))
Rank == Both("syrk") = M(x, T(x)) /\ Both("herk") = M(x, H(x)) /\ RealDiag(Both("herk")) = Both("herk")
Norms == /\ \A w \in 0..2 : NormOk(Eye, "inf", w * w, w) <=> w = 1
         /\ NormOk(x, "fro", SumF(LAMBDA i : SumF(LAMBDA j : Mod2(At(x, i, j)), 2), 2), 0)
         /\ At(M(x, H(x)), 1, 1)[1] + At(M(x, H(x)), 2, 2)[1] = SumF(LAMBDA k : Mod2(Flat(x)[k]), 4)
=============================================================================
