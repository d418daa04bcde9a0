------------------------------ MODULE GenOrder ------------------------------
(* Every short sequence over a few values, given to every query.              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N
Vals == {-2, 0, 1, 2}
VARIABLES sc
Seqs(n) == [1..n -> Vals]
Op(f, x) == [e |-> "op", f |-> f, x |-> x]
Rev(x) == [k \in 1..Len(x) |-> x[Len(x) + 1 - k]]
Zip(x) == <<[e |-> "reset", prop |-> "L03"], Op("arg1", x), [e |-> "op", f |-> "arg2", x |-> x, x2 |-> Rev(x)], [e |-> "op", f |-> "arg3", x |-> [k \in 1..Len(x) |-> 0], x2 |-> x, x3 |-> Rev(x)],
            Op("ends", x), Op("turns", x)>>
          \o (IF Len(x) \in 2..4 THEN <<Op("tuple", x)>> ELSE << >>) \o (IF Len(x) > 0 THEN <<Op("absmax", x)>> ELSE << >>)
Init == \E n \in 0..N : \E x \in Seqs(n) : sc = Zip(x)
Emit == PrintT(<<"GEN", ToJson(sc)>>)
Next == FALSE /\ UNCHANGED sc
=============================================================================
