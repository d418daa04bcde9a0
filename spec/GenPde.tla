------------------------------- MODULE GenPde -------------------------------
(* Scenario sets for the PDE operators: every combination of conditions on   *)
(* the sides of small grids, every short history of settings.                *)
EXTENDS Pde, Json
CONSTANTS Prop
VARIABLES sc
Head1 == <<[prop |-> Prop]>>
\* conditions of one axis: value/flux on either side, or periodic
Axis == {"vv", "vf", "fv", "ff", "p"}
Cond(k, s, c) == [e |-> "bc", k |-> k, side |-> s, c |-> c]
OfAxis(a, s, c) == CASE a = "vv" -> <<Cond("set", s, c), Cond("set", s + 1, <<c[2], c[3], c[1]>>)>>
                     [] a = "vf" -> <<Cond("set", s, c), Cond("nat", s + 1, <<c[2], c[3], c[1]>>)>>
                     [] a = "fv" -> <<Cond("nat", s, c), Cond("set", s + 1, <<c[2], c[3], c[1]>>)>>
                     [] a = "ff" -> <<Cond("nat", s, c), Cond("nat", s + 1, <<c[2], c[3], c[1]>>)>>
                     [] OTHER -> <<>>
Per(x, y) == IF x = "p" \/ y = "p" THEN <<[e |-> "bc", k |-> "per", px |-> IF x = "p" THEN 1 ELSE 0, py |-> IF y = "p" THEN 1 ELSE 0]>> ELSE <<>>
Fdm(dim, nx, ny, px, py, q, k, al, sy, x0) ==
  [e |-> "fdm", grid |-> [dim |-> dim, k |-> "uni", d |-> q, x |-> <<x0, x0 + px * (nx - 1)>>, y |-> <<-1, -1 + py * (ny - 1)>>, gx |-> nx, gy |-> ny],
   pq |-> <<px, py, q>>, k |-> k, al |-> al, src |-> <<1, -2, 1, 1>>, ks |-> 4 * px * px * py * py, rs |-> 4 * px * py * q * q,
   extra |-> 1, cons |-> 1, sym |-> sy, solve |-> 1, symm |-> IF sy = "no" THEN 0 ELSE 1]
Syms == {"no", "full", "lower", "upper"}
Combos == { Head1 \o <<[e |-> "bcnew", dim |-> 2]>> \o Per(x, y) \o OfAxis(x, 0, <<1, -2, 3>>) \o OfAxis(y, 2, <<-1, 2, 1>>)
              \o <<Fdm(2, nx, ny, 1, 2, 2, <<2, 3>>, al, sy, 1)>>
            : x \in Axis, y \in Axis, nx \in {2, 3, 4}, ny \in {2, 3}, al \in {0, 2}, sy \in Syms }
          \cup { Head1 \o <<[e |-> "bcnew", dim |-> 1]>> \o Per(x, "") \o OfAxis(x, 0, <<1, -2, 3>>) \o <<Fdm(1, nx, 1, 2, 1, 3, <<5, 1>>, al, sy, -2)>>
            : x \in Axis, nx \in 2..6, al \in {0, 1}, sy \in Syms }
\* every history of at most three settings, then the operator
Sets(d) == {Cond("set", s, <<s + 1, 1, -1>>) : s \in 0..(2 * d - 1)} \cup {Cond("nat", s, <<s - 3, 0, 1>>) : s \in 0..(2 * d - 1)}
           \cup {[e |-> "bc", k |-> "per", px |-> x, py |-> y] : x \in {0, 1}, y \in IF d = 1 THEN {0} ELSE {0, 1}} \cup {[e |-> "bc", k |-> "hom"]}
Histories == UNION { { Head1 \o <<[e |-> "bcnew", dim |-> d]>> \o h \o <<Fdm(d, 3, 2, 1, 1, 1, <<1, 2>>, 1, "no", 0)>>
                       : h \in {<<a>> : a \in Sets(d)} \cup {<<a, b>> : a \in Sets(d), b \in Sets(d)} \cup {<<a, b, c>> : a \in Sets(d), b \in Sets(d), c \in Sets(d)} }
                     : d \in {1, 2} }
\* every sequence of two prescribed sets
Number == { Head1 \o <<[e |-> "eqnew", n |-> n], [e |-> "eqset", p |-> SetToSeq(a)], [e |-> "eqset", p |-> SetToSeq(b) \o SetToSeq(b)]>>
            : n \in {1, 4}, a \in SUBSET (1..5), b \in SUBSET (1..4) }
Meshes == { Head1 \o <<[e |-> "grid", dim |-> d, k |-> "uni", d |-> 3, x |-> <<x, x + w>>, y |-> <<x - w, x>>, gx |-> nx, gy |-> ny]>>
            : d \in {1, 2}, x \in {-7, 0, 100, 4999}, w \in {-1, 0, 1, 1000}, nx \in 1..5, ny \in 1..3 }
          \cup { Head1 \o <<[e |-> "grid", dim |-> d, k |-> "cgl", d |-> 1, x |-> <<>>, y |-> <<>>, gx |-> nx, gy |-> ny]>> : d \in {1, 2}, nx \in 0..9, ny \in 1..4 }
All == IF Prop = "D02" THEN Combos ELSE Histories \cup Number \cup Meshes
Init == sc \in All /\ bc = 0
Next == FALSE /\ UNCHANGED <<sc, bc>>
Emit == PrintT(<<"GEN", ToJson(sc)>>)
=============================================================================
