----------------------------- MODULE GenSearch ------------------------------
(* Quadratics and steps over every small bracket, every limit of iterations   *)
(* and every evaluation at which the function fails.                          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS R
VARIABLES sc
Base(f, fun, c, a, fail, max) == [e |-> "op", f |-> f, fun |-> fun, c |-> c, a |-> a, fail |-> fail, max |-> max, stats |-> 1, sc |-> 0, tol |-> 8]
With(x, b) == [k \in DOMAIN x \cup {"b"} |-> IF k = "b" THEN b ELSE x[k]]
Expand(x, s) == [k \in DOMAIN x \cup {"step", "grow"} |-> IF k = "step" THEN s ELSE IF k = "grow" THEN 8 ELSE x[k]]
Init == \E a \in (-R)..R, b \in (-R)..R, r \in {0, 1, 3}, s \in {-1, 1} : \E fm \in {<<0, 100>>, <<0, 3>>} \cup {<<k, 100>> : k \in 1..6} :
  sc = <<[e |-> "reset", prop |-> "L05"],
         With(Base("root", "roots", <<s, r>>, 4 * a, fm[1], fm[2]), 4 * b + 1), With(Base("root", "step", <<s, r>>, 4 * a, fm[1], fm[2]), 4 * b),
         With(Base("min", "roots", <<s, r, -2>>, 4 * a, fm[1], fm[2]), 4 * b), With(Base("min", "abs", <<s, r>>, 4 * a + 1, fm[1], fm[2]), 4 * b),
         Expand(Base("bracket", "abs", <<1, r + 4 * b>>, 4 * a, fm[1], IF fm[2] = 100 THEN 20 ELSE 2), s)>>
Emit == PrintT(<<"GEN", ToJson(sc)>>)
Next == FALSE /\ UNCHANGED sc
=============================================================================
