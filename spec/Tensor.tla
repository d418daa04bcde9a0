------------------------------- MODULE Tensor -------------------------------
(* Tensors of order two, three and four in the general (0), symmetric (1) and *)
(* plane symmetric (2) storage forms. A tensor is the list of its standard    *)
(* components in row-major order, times four; pairs of indices are stored     *)
(* through the coordinates of the Kelvin basis, here without their factors.   *)
EXTENDS Base, SequencesExt
VARIABLE ten

NP(r, ca) == IF r = 3 /\ ca = 0 THEN 3 ELSE 9
NQ(r, ca) == IF r = 2 THEN 1 ELSE IF r = 3 /\ ca = 1 THEN 3 ELSE 9
Size(r) == IF r = 2 THEN 9 ELSE IF r = 3 THEN 27 ELSE 81
Dim(rp) == IF rp = 0 THEN 9 ELSE IF rp = 1 THEN 6 ELSE 4

\* pairs of indices: 3i + j, and the order they have in vectors and matrices
PairAt == <<0, 4, 8, 1, 5, 2, 3, 7, 6>>
PairNo == <<0, 3, 5, 6, 1, 4, 8, 7, 2>>
Swap(p) == (3 * (p % 3)) + (p \div 3)
Off(p) == p % 3 # p \div 3
Upper(p) == p \div 3 < p % 3
Plane(p) == ~Off(p) \/ p \in {1, 3}

At(x, nq, p, q) == x[(p * nq) + q + 1]
Flat(np, nq, F(_, _)) == [k \in 1..(np * nq) |-> F((k - 1) \div nq, (k - 1) % nq)]

Holds(r, ca, rp, x) ==
  LET np == NP(r, ca)  nq == NQ(r, ca)
  IN rp = 0 \/ \A p \in 0..(np - 1), q \in 0..(nq - 1) :
       /\ np = 9 => At(x, nq, p, q) = At(x, nq, Swap(p), q)
       /\ nq = 9 => At(x, nq, p, q) = At(x, nq, p, Swap(q))
       /\ (rp = 2 /\ np = 9 /\ ~Plane(p)) => At(x, nq, p, q) = 0
       /\ (rp = 2 /\ nq = 9 /\ ~Plane(q)) => At(x, nq, p, q) = 0

\* coordinates: sums above the diagonal, differences below
Kel1(G(_), m) == LET p == PairAt[m + 1]
                 IN IF ~Off(p) THEN G(p) ELSE IF Upper(p) THEN G(p) + G(Swap(p)) ELSE G(Swap(p)) - G(p)
Std1(S(_), p) == LET m == PairNo[p + 1]  w == PairNo[Swap(p) + 1]
                 IN IF ~Off(p) THEN S(m) ELSE IF Upper(p) THEN (S(m) + S(w)) \div 2 ELSE (S(w) - S(m)) \div 2
Kel(r, ca, x) ==
  LET np == NP(r, ca)  nq == NQ(r, ca)
      A == TLCEval(IF np = 9 THEN Flat(np, nq, LAMBDA m, q : Kel1(LAMBDA p : At(x, nq, p, q), m)) ELSE x)
  IN IF nq = 9 THEN Flat(np, nq, LAMBDA m, n : Kel1(LAMBDA q : At(A, nq, m, q), n)) ELSE A
Std(r, ca, s) ==
  LET np == NP(r, ca)  nq == NQ(r, ca)
      A == TLCEval(IF np = 9 THEN Flat(np, nq, LAMBDA p, n : Std1(LAMBDA m : At(s, nq, m, n), p)) ELSE s)
  IN IF nq = 9 THEN Flat(np, nq, LAMBDA p, q : Std1(LAMBDA n : At(A, nq, p, n), q)) ELSE A

\* what the getters return
Sorted(r, ca, x) ==
  LET np == NP(r, ca)  nq == NQ(r, ca)
  IN Flat(np, nq, LAMBDA m, n : At(x, nq, IF np = 9 THEN PairAt[m + 1] ELSE m, IF nq = 9 THEN PairAt[n + 1] ELSE n))
Coords(t) ==
  LET np == NP(t.r, t.ca)  nq == NQ(t.r, t.ca)
      s == TLCEval(Kel(t.r, t.ca, t.x))
      a == IF np = 9 THEN Dim(t.rp) ELSE np
      b == IF nq = 9 THEN Dim(t.rp) ELSE nq
  IN [k \in 1..(a * b) |-> At(s, nq, (k - 1) \div b, (k - 1) % b)]
Dims(t) == <<IF NP(t.r, t.ca) = 9 THEN Dim(t.rp) ELSE 3, IF t.r = 2 THEN 1 ELSE IF NQ(t.r, t.ca) = 9 THEN Dim(t.rp) ELSE 3>>
Shows(t, v) ==
  /\ v.rp = t.rp /\ v.dm = Dims(t)
  /\ v.a = t.x
  /\ LET b == IF t.r = 2 THEN t.x ELSE Sorted(t.r, t.ca, t.x) IN v.b = b /\ v.c = b
  /\ t.r > 2 => v.d = t.x /\ v.g = t.x
  /\ v.k = Coords(t)
  /\ (t.r = 2 /\ t.rp = 2) => v.h = <<t.x[9], t.x[1], t.x[2], t.x[4], t.x[5]>>

\* operations
Zero(r) == [k \in 1..Size(r) |-> 0]
Times(a, x) == [k \in 1..Len(x) |-> a * x[k]]
Plus(x, y) == [k \in 1..Len(x) |-> x[k] + y[k]]
Four(x) == Times(4, x)
Unit2 == <<4, 0, 0, 0, 4, 0, 0, 0, 4>>
Eps(i, j, k) == ((i - j) * (j - k) * (k - i)) \div 2
Perm == [n \in 1..27 |-> LET k == n - 1 IN 4 * Eps(k \div 9, (k \div 3) % 3, k % 3)]
New(t, e) == [t EXCEPT !.rp = e.rp, !.ca = IF t.r = 3 THEN e.ca ELSE 1,
                       !.x = IF e.via = 3 /\ t.r = 2 THEN Unit2 ELSE IF e.via = 3 /\ t.r = 3 THEN Perm ELSE Zero(t.r)]
\* positions equal to the given one by symmetry
Same(t, ix) ==
  LET np == NP(t.r, t.ca)  nq == NQ(t.r, t.ca)
      p == IF np = 9 THEN (3 * ix[1]) + ix[2] ELSE ix[1]
      q == IF t.r = 2 THEN 0 ELSE IF np = 3 THEN (3 * ix[2]) + ix[3] ELSE IF nq = 3 THEN ix[3] ELSE (3 * ix[3]) + ix[4]
  IN {(a * nq) + b + 1 : a \in IF np = 9 THEN {p, Swap(p)} ELSE {p}, b \in IF nq = 9 THEN {q, Swap(q)} ELSE {q}}
SetSym(t, ix, v) == LET w == Same(t, ix) IN [t EXCEPT !.x = [k \in 1..Len(t.x) |-> IF k \in w THEN v ELSE t.x[k]]]
AddSym(t, ix, v) == LET w == Same(t, ix) IN [t EXCEPT !.x = [k \in 1..Len(t.x) |-> IF k \in w THEN t.x[k] + v ELSE t.x[k]]]
Raw(t, m, n, v) ==
  LET s == TLCEval(Kel(t.r, t.ca, t.x))
  IN [t EXCEPT !.x = Std(t.r, t.ca, [s EXCEPT ![(m * NQ(t.r, t.ca)) + n + 1] = v])]

\* outcome of an operation: status and the tensor afterwards
Res(st, t) == [st |-> st, t |-> t]
Does(t, e) ==
  CASE e.f = "new" -> Res("ok", New(t, e))
    [] e.f = "std" -> IF Holds(t.r, t.ca, t.rp, e.x) THEN Res("ok", [t EXCEPT !.x = Four(e.x)]) ELSE Res("err", t)
    [] e.f = "sym" -> IF t.rp = 0 THEN Res("panic", t) ELSE Res("ok", SetSym(t, e.ix, 4 * e.v))
    [] e.f = "add" -> IF t.rp = 0 THEN Res("panic", t) ELSE Res("ok", AddSym(t, e.ix, 4 * e.al * e.v))
    [] e.f = "raw" -> Res("ok", Raw(t, e.m, e.n, 4 * e.v))
    [] e.f = "upd" -> IF e.q # t.rp THEN Res("panic", t) ELSE Res("ok", [t EXCEPT !.x = Plus(@, Times(4 * e.al, e.x))])
    [] e.f \in {"cpy", "vec"} -> IF e.q # t.rp THEN Res("panic", t) ELSE Res("ok", [t EXCEPT !.x = Times(4 * e.al, e.x)])
    [] e.f = "clr" -> Res("ok", [t EXCEPT !.x = Zero(t.r)])
    [] e.f = "gen" -> Res("ok", [t EXCEPT !.rp = 0])
    [] e.f = "s2s" -> IF t.rp # 2 THEN Res("panic", t) ELSE Res("ok", [t EXCEPT !.rp = 1])
    [] e.f = "cln" -> Res("ok", t)
    [] OTHER -> Res("unknown", t)

Blank(r) == [r |-> r, rp |-> 0, ca |-> 1, x |-> Zero(r)]
Typed(t) == /\ Len(t.x) = Size(t.r) /\ Holds(t.r, t.ca, t.rp, t.x)
            /\ Std(t.r, t.ca, Kel(t.r, t.ca, t.x)) = t.x
=============================================================================
