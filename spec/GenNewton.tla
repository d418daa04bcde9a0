----------------------------- MODULE GenNewton ------------------------------
(* One- and two-dimensional systems from every small start, every limit and   *)
(* every failing call; line searches over small quadratics.                   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS R
VARIABLES sc
N1(a, b, c, x, fail, max, ls) == [e |-> "op", f |-> "newton", n |-> 1, dim |-> 1, a |-> <<<<a>>>>, b |-> <<<<b>>>>, c |-> <<c>>, x0 |-> <<x>>, fail |-> fail,
  max |-> max, tol |-> 10, div |-> 1000, ls |-> ls, al |-> 4, nan |-> 0, stats |-> 1, fresh |-> 0]
Line(c, x, p, k, mx) == [e |-> "op", f |-> "line", c |-> c, x |-> x, p |-> p, fx |-> c[1] + c[2] * x + c[3] * x * x, slope |-> p * (c[2] + 2 * c[3] * x),
  way |-> 0, c1 |-> k, rho |-> 2, mina |-> 1, max |-> mx, fail |-> 0]
Init == \/ \E b \in 0..1, c \in (-R)..R, x \in (-R)..R, ls \in 0..1 : \E fm \in {<<0, 20>>, <<0, 2>>} \cup {<<k, 20>> : k \in 1..5} :
             sc = <<[e |-> "reset", prop |-> "L06"], N1(1, b, c, x, fm[1], fm[2], ls), N1(0, b, c, x, fm[1], fm[2], ls), N1(-2, 1, c, x, fm[1], fm[2], ls)>>
        \/ \E b \in (-R)..R, a \in (-R)..R, x \in (-R)..R, p \in (-R)..R :
             sc = <<[e |-> "reset", prop |-> "L06"], Line(<<1, b, a>>, x, p, 1, 8), Line(<<1, b, a>>, x, p, 12, 8), Line(<<1, b, a>>, x, p, 8, 2)>>
Emit == PrintT(<<"GEN", ToJson(sc)>>)
Next == FALSE /\ UNCHANGED sc
=============================================================================
