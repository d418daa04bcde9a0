----------------------------- MODULE GenSpecial -----------------------------
(* Dense lattices of arguments for the special functions, one per row.        *)
EXTENDS Base, Json, TLC
CONSTANT W   \* arguments per scenario and density
VARIABLES sc
Head0 == [e |-> "reset", prop |-> "L08"]
Row(op(_), n) == <<Head0>> \o [i \in 1..n |-> op(i)]
Gams == \E a \in (-19)..53 : sc = Row(LAMBDA i : [e |-> "op", f |-> "gam", k |-> 100 * a + 3 * (i - 1) + 1], 33)
Erfs == \E a \in (-20)..19 : sc = Row(LAMBDA i : [e |-> "op", f |-> "erf", k |-> 84 * a + 2 * i - 1], 42)
Invs == \E a \in (-8)..7 : sc = Row(LAMBDA i : [e |-> "op", f |-> "inv", k |-> IF 128 * a + 3 * i = -1024 THEN 0 ELSE 128 * a + 3 * i], 42)
Fars == sc = Row(LAMBDA i : [e |-> "op", f |-> "tail", k |-> i], 52)
Bess == \E n \in {1, 2, 3, 4, 7, 12, 19, 30}, a \in 0..(4 * W) : sc = Row(LAMBDA i : [e |-> "op", f |-> "bes", n |-> n, k |-> 64 * a + (64 \div (4 * W)) * i], 4 * W)
Hugs == \E n \in 0..9, k \in {1, 3, 77777} : sc = Row(LAMBDA i : [e |-> "op", f |-> "hug", n |-> n, k |-> k, s |-> <<40, 64, 113, 127, 129, 130, 200, 285, 300, 302, 303, 400, 700, 1000>>[i]], 14)
Ells == \E m \in (-1)..(8 + 4 * W), n \in {-20, -5, 0, 3, 8, 15, 16, 17, 24} : sc = Row(LAMBDA i : [e |-> "op", f |-> "ell", m |-> m, n |-> n, j |-> i - 2], 19)
Pols == \E n \in 1..(12 + 3 * W) : sc = Row(LAMBDA i : [e |-> "op", f |-> "pol", n |-> n, k |-> IF n <= 6 THEN i - 25 ELSE (i - 25) \div 2], 49)
Gaus == \E n \in 1..(12 * W) : sc = <<Head0, [e |-> "op", f |-> "gau", n |-> n, lob |-> 0], [e |-> "op", f |-> "gau", n |-> n, lob |-> 1], [e |-> "op", f |-> "chp", n |-> n], [e |-> "op", f |-> "fac", n |-> n], [e |-> "op", f |-> "fac", n |-> n - 1]>>
Bets == \E a \in (-3 * W)..(3 * W) : sc = Row(LAMBDA i : [e |-> "op", f |-> "bet", a |-> 8 * a, b |-> 8 * (i - 20)], 40)
Bas == \E a \in {2, 3, 50} : sc = Row(LAMBDA i : [e |-> "op", f |-> "bas", a |-> a, b |-> 2 * i - 49], 32)
Eles == \E a \in (-4)..4, j \in {-32, -5, -1, 0, 3, 16, 40}, n \in (-5)..5 : sc = Row(LAMBDA i : [e |-> "op", f |-> "ele", k |-> 16 * a + ((i * 5) % 17), j |-> j, n |-> n, b |-> i % 4, a |-> (i % 5) - 2], 4 * W)
Flos == \E k \in {-255, -3, -1, 0, 1, 2, 7, 128}, s \in {-1074, -1060, -1030, -1022, -512, -1, 0, 1, 53, 512, 1000, 1015} :
  sc = <<Head0>> \o [i \in 1..12 |-> [e |-> "op", f |-> "flo", k |-> k, s |-> s, g |-> <<-1100, -1083, -1075, -1074, -1050, -1022, -53, 0, 60, 1015, 1023, 1100>>[i]]]
Fns == {"gamma", "lngamma", "erf", "erfc", "erfinv", "erfcinv", "j0", "j1", "jn", "y0", "y1", "yn", "i0", "i1", "in", "k0", "k1", "kn", "modx", "mody", "isint", "isneg", "betaa", "lnbetaa", "gammaneg", "lngammaneg", "gammaover", "betaneg", "betazero", "lnbetazero"}
Args == <<"nan", "inf", "-inf", "zero", "-zero", "one", "-one", "two", "-two", "neg", "pos", "big", "-big", "tiny">>
\* subtraction of the divisor a denormal number of times is slow by nature
Fit(fn, x) == IF fn = "mody" /\ x = "tiny" THEN "one" ELSE IF fn \in {"in", "jn", "yn", "i0", "i1"} /\ x \in {"big", "-big", "tiny"} THEN "zero" ELSE x
Ends == \E fn \in Fns, n \in {-3, -2, 0, 1, 2, 5} : sc = Row(LAMBDA i : [e |-> "op", f |-> "sp", fn |-> fn, x |-> Fit(fn, Args[i]), n |-> n], 14)
Init == Gams \/ Erfs \/ Invs \/ Fars \/ Bess \/ Hugs \/ Ells \/ Pols \/ Gaus \/ Bets \/ Bas \/ Eles \/ Flos \/ Ends
Emit == PrintT(<<"GEN", ToJson(sc)>>)
Next == FALSE /\ UNCHANGED sc
=============================================================================
