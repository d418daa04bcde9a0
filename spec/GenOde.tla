------------------------------- MODULE GenOde -------------------------------
(* Scenario sets for the integrators: every combination of the classes below. *)
EXTENDS OdeRun, Json
CONSTANTS Area
VARIABLES sc
Methods == DOMAIN Order
Par == [conc |-> 0, hini |-> <<1, 100>>, lb |-> 0, linp |-> 1, mmax |-> 5, modn |-> 0, nmax |-> 10000, numjac |-> 0,
        pred |-> 1, stiff |-> 0, ta |-> 5, tr |-> 5, zt |-> 0]
ParOf(m) == IF m = "MdEuler" THEN [Par EXCEPT !.ta = 3, !.tr = 3] ELSE Par
New(s, m, p, par) == [e |-> "new", s |-> s, m |-> m, prob |-> p, par |-> par]
Poly1 == [k |-> "poly", n |-> 1, a |-> << <<2>> >>, den |-> 1, jac |-> "ana", sym |-> "no"]
Lin2 == [k |-> "lin", n |-> 2, a |-> << <<-1, 1>>, <<-1, -2>> >>, den |-> 2, jac |-> "ana", sym |-> "no"]
Rat1 == [k |-> "rat", n |-> 1, jac |-> "num", sym |-> "no"]
Ramp == [k |-> "ramp", n |-> 1, s |-> <<1, 2>>, jac |-> "ana", sym |-> "no"]
Y0(p) == IF p.k = "rat" THEN <<1>> ELSE [i \in 1..p.n |-> i]
Yd(p) == IF p.k = "rat" THEN 2 ELSE 1
Out(cb, rec, dcb, drec, file) == [cb |-> cb, rec |-> rec, dcb |-> dcb, drec |-> drec, file |-> file]
Run(s, p, x1) == [e |-> "run", s |-> s, x0 |-> 0, x1 |-> x1, xd |-> 2, y0 |-> Y0(p), yd |-> Yd(p), ysc |-> 100000]
WithOut(r, o, k) == r @@ [out |-> o, oslot |-> k]

(* run protocol: every fault or stop at every early position *)
EventsA == {<<>>} \cup UNION {{[fail |-> k], [nan |-> k], [stop |-> k], [serr |-> k]} : k \in 1..7} \cup {[failj |-> k] : k \in 1..3}
         \cup {[limit |-> k] : k \in 1..6}
ScA == UNION {
  LET base == << [mode |-> "A"], New(0, m, p, ParOf(m)) >>
      r == WithOut(Run(0, p, 2) @@ (IF q = 0 \/ (m \notin Embedded /\ q = 1) THEN [heq |-> <<1, 4>>] ELSE <<>>), Out(1, 0, 0, 0, 0), 0)
  IN IF "limit" \in DOMAIN ev
     THEN IF m \in Embedded THEN { base \o << [e |-> "upd", s |-> 0, m |-> m, par |-> [ParOf(m) EXCEPT !.nmax = ev.limit]], r >> } ELSE {}
     ELSE { base \o << r @@ ev >> }
  : m \in Methods, p \in {Poly1, Lin2, Rat1, Ramp}, q \in {0, 1}, ev \in EventsA }

(* output: every combination of requests *)
Stations == { <<>>, [dh |-> <<1, 4>>], [dh |-> <<3, 8>>], [dh |-> <<5, 1>>], [dx |-> <<>>, dd |-> 8], [dx |-> <<1>>, dd |-> 8],
              [dx |-> <<2, 3, 7>>, dd |-> 8], [dx |-> <<3, 2>>, dd |-> 8], [dx |-> <<0, 3>>, dd |-> 8], [dx |-> <<4, 8>>, dd |-> 8] }
Again(r, d) == IF "dx" \in DOMAIN d THEN << r >> ELSE << r, [r EXCEPT !.x0 = @ + 1, !.x1 = @ + 1] >>
ScB == { << [mode |-> "B"], New(0, m, p, Par) >> \o Again(WithOut(Run(0, p, 2) @@ q, Out(o[1], o[2], o[3], o[4], o[5]) @@ d, 0), d)
  : m \in DenseMethods, p \in {Poly1, Rat1}, q \in {<<>>, [heq |-> <<1, 4>>]}, o \in [1..5 -> {0, 1}], d \in Stations }

(* histories: two operations of any kind, then the run a fresh solver also makes *)
Pars == <<Par, [Par EXCEPT !.ta = 7, !.tr = 7, !.mmax = 3, !.hini = <<1, 50>>]>>
Key(k, q) == k * 2 + q - 1
Kind(p, k) == IF k = 0 THEN Run(0, p, 2) ELSE Run(0, p, 3) @@ [heq |-> <<1, 8>>]
OpsC(m, p) == { << Kind(p, k) >> : k \in {0, 1} }
       \cup { << Kind(p, 0) @@ [fail |-> j] >> : j \in {1, 2, 9, 20} }
       \cup { << Kind(p, 1) @@ [nan |-> 5] >> }
       \cup { << WithOut(Kind(p, 0) @@ [stop |-> j], Out(1, 1, 0, 0, 0), 5 + j) >> : j \in {1, 3} }
       \cup (IF m \in DenseMethods THEN { << WithOut(Kind(p, 0) @@ [dn |-> 1], Out(0, 0, 0, 1, 0) @@ [dh |-> <<1, 8>>], 1) >> } ELSE {})
       \cup { << [e |-> "upd", s |-> 0, m |-> m, par |-> Pars[2]] >> }
KeyOf(r, q) == IF r.e = "run" THEN r @@ [key |-> Key(IF "heq" \in DOMAIN r THEN 1 ELSE 0, q)] ELSE r
IsUpd(o) == o[1].e = "upd"
ScC == UNION { { LET q1 == IF IsUpd(a) THEN 2 ELSE 1
             q2 == IF IsUpd(b) THEN 2 ELSE q1
             fin == IF m \in Embedded THEN Kind(p, k) ELSE Kind(p, 1)
         IN << [mode |-> "C"], New(0, m, p, Pars[1]), New(1, m, p, Pars[q2]), KeyOf(a[1], q1), KeyOf(b[1], q2),
               KeyOf(fin, q2), [KeyOf(fin, q2) EXCEPT !.s = 1] >>
  : k \in {0, 1}, a \in OpsC(m, p), b \in OpsC(m, p) } : m \in Embedded \cup {"BwEuler", "Rk4"}, p \in {Lin2, Rat1} }

(* exactness: single powers up to the order of the method, a few equal steps *)
ScD == UNION { { << [mode |-> "D"], New(0, m, [k |-> "poly", n |-> 1, a |-> << [i \in 1..d |-> IF i = d THEN 1 ELSE 0] >>, den |-> 1, jac |-> "ana", sym |-> "no"], Par),
                    [e |-> "run", s |-> 0, x0 |-> x0, x1 |-> x0 + n, xd |-> 2, y0 |-> <<1>>, yd |-> 1, ysc |-> 100000, heq |-> <<1, 2>>] >>
                 : d \in 1..Order[m], x0 \in {-1, 0, 1}, n \in 1..3 } : m \in Methods }

(* order of the dense output *)
RatN(n) == [k |-> "rat", n |-> n, jac |-> "ana", sym |-> "no"]
ScF == { LET r == [e |-> "run", s |-> 0, x0 |-> 0, x1 |-> 1, xd |-> 1, y0 |-> [i \in 1..n |-> a], yd |-> 2, ysc |-> 1000000000, heq |-> <<1, q>>, oslot |-> 0,
                   out |-> Out(0, 0, 0, 1, 0) @@ [dh |-> <<1, dh>>]]
         IN << [mode |-> "F"], New(0, m, RatN(n), [Par EXCEPT !.ta = 7, !.tr = 7]), IF m = "DoPri8" THEN r @@ [dord |-> 1] ELSE r >>
  : m \in DenseMethods, n \in {1, 2}, a \in {1, 2}, q \in {4, 8}, dh \in {64, 48, 20} }

All == CASE Area = "a" -> ScA [] Area = "b" -> ScB [] Area = "c" -> ScC [] Area = "d" -> ScD \cup ScF
Init == sc \in All
Next == FALSE /\ UNCHANGED sc
Emit == PrintT(<<"GEN", ToJson(sc)>>)
=============================================================================
