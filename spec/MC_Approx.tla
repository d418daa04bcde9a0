----------------------------- MODULE MC_Approx ------------------------------
(* Every history of a Chebyshev interpolant over small coefficient vectors    *)
(* and degrees, and every small clamped or open knot vector.                  *)
EXTENDS Approx
CONSTANTS C, Most
VARIABLES s, h, sp
Cs == {<<1, b, c, d>> : b \in (-C)..C, c \in 0..C, d \in {0, 1}} \cup {<<0, 1, 0, 0, b, 0, c>> : b \in (-C)..C, c \in {0, 1}}
Obj == [max |-> Most]
Step(k, nn, c, f) == [k |-> k, nn |-> nn, c |-> c, x |-> <<>>, fail |-> f]
Degrees == 0..(Most + 3)
Steps == {Step("fun", n, c, f) : n \in Degrees, c \in Cs, f \in {0, 2}} \cup {Step("adf", 0, c, f) : c \in Cs, f \in {0, 2}}
         \cup {Step(k, n, c, 0) : k \in {"data", "add"}, n \in Degrees, c \in Cs}
\* knot vectors: multiplicities of the inner knots, or plain integers
Clamped(p, m) == [i \in 1..(p + 1) |-> 0] \o FoldLeft(LAMBDA t, k : t \o [i \in 1..m[k] |-> k], <<>>, Idx(Len(m))) \o [i \in 1..(p + 1) |-> Len(m) + 1]
Splines == UNION {{[p |-> p, kn |-> Clamped(p, m)] : m \in [1..n -> 0..p]} : p \in 1..3, n \in 0..2} \cup {[p |-> p, kn |-> [i \in 1..(2 * p + 3) |-> i - 1]] : p \in 1..3}
Init == s = [kind |-> "none", c |-> <<>>, st |-> "ok"] /\ h = [k |-> "none", nn |-> 0, c |-> <<0>>, x |-> <<>>, fail |-> 0] /\ sp \in Splines
\* the spline stays; histories are explored with the first spline only
Next == /\ sp = [p |-> 1, kn |-> <<0, 0, 1, 1>>]
        /\ \E x \in Steps : s' = CStep(Obj, s, x) /\ h' = (IF s'.st = "ok" THEN x ELSE [Step("bad", 0, <<0>>, 0) EXCEPT !.nn = IF s'.kind = "set" THEN 1 ELSE 0]) /\ UNCHANGED sp
Deg(c) == IF \A i \in 1..Len(c) : c[i] = 0 THEN 0 ELSE (CHOOSE i \in 1..Len(c) : c[i] # 0 /\ \A j \in (i + 1)..Len(c) : c[j] = 0) - 1
Source == IF h.k = "add" THEN SetData(h.c, h.nn) ELSE h.c
Fresh == s.kind = "set" /\ s.st = "ok" /\ h.k # "none"
Through ==
  Fresh => LET nn == Len(s.c) - 1 IN
    /\ nn >= 1 => AtOne(s.c) = AtOne(Source) /\ CVal(Interp(s.c), -4) = CVal(Interp(Source), -4)
    /\ (nn >= 2 /\ nn % 2 = 0) => AtZero(s.c) = AtZero(Source)
    /\ nn = 3 => CVal(s.c, 2) = CVal(Interp(Source), 2) /\ CVal(s.c, -2) = CVal(Interp(Source), -2)
Reproduce == (Fresh /\ Len(s.c) - 1 >= Deg(Source)) => \A k \in (-4)..4 : CVal(Interp(s.c), k) = CVal(Interp(Source), k)
Bounded == Fresh => Len(s.c) - 1 <= Most + 2
\* a refused call changes nothing, a failed one leaves nothing to rely on
LastBad == s.st = "err" => (h.nn = 1) = (s.c # <<>>)
\* partition of unity, vanishing sums of derivatives, local support
Us == (4 * Kn(sp, sp.p))..(4 * Kn(sp, NB(sp)))
Unity ==
  h.k = "none" => \A u \in Us :
    LET lv == TLCEval(Levels(sp, u)) IN
    /\ QSum(LAMBDA i : lv[sp.p + 1][i], NB(sp)) = <<1, 1>>
    /\ \A i \in 1..NB(sp) : lv[sp.p + 1][i][1] >= 0
    /\ \A k \in 1..sp.p : LET d == TLCEval(DBasis(sp, lv, k)) IN QSum(LAMBDA i : d[i], NB(sp)) = Q0
Ends == (h.k = "none" /\ sp.kn[1] = sp.kn[sp.p + 1]) =>
  /\ Levels(sp, 0)[sp.p + 1][1] = <<1, 1>>
  /\ Levels(sp, 4 * sp.kn[Len(sp.kn)])[sp.p + 1][NB(sp)] = <<1, 1>>
=============================================================================
