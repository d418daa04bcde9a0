------------------------------ MODULE GenStat ------------------------------
(* Small data sets in every order, every layout of bins over them.            *)
EXTENDS Base, Json, TLC
CONSTANTS N, M
VARIABLES sc
Head0 == [e |-> "reset", prop |-> "A01"]
Vals == {0, 1, 2, 5}
Ty == {<<"f64", 1>>, <<"f64", 10>>, <<"i32", 1>>, <<"u8", 1>>}
Small == \E n \in 0..N, t \in Ty : \E x \in [1..n -> Vals] :
  sc = <<Head0, [e |-> "op", f |-> "stats", t |-> t[1], den |-> t[2], x |-> x],
         [e |-> "op", f |-> "ord", t |-> t[1], den |-> t[2], x |-> x, q |-> <<0, 1, 8, 32, 40, 43, 64, 88, 96, 127, 128, 129, -1>>]>>
\* one value far from a cluster, on either side of the limit
Outs == \E n \in 3..9, a \in (-12)..12, t \in Ty : \E p \in 1..n :
  /\ t[1] # "u8"
  /\ sc = <<Head0, [e |-> "op", f |-> "ord", t |-> t[1], den |-> t[2], x |-> [i \in 1..n |-> IF i = p THEN a ELSE i % 4], q |-> <<4, 12>>]>>
Cnt(x) == [k |-> "cnt", x |-> x]
Hists == \E n \in 0..4, d \in 1..3, t \in Ty : \E x \in [1..M -> (-1)..(3 * d + 1)] :
  /\ t[1] # "u8" \/ \A i \in 1..M : x[i] >= 0
  /\ sc = <<Head0, [e |-> "op", f |-> "hist", t |-> t[1], den |-> t[2], s |-> [i \in 1..n |-> d * (i - 1)],
                    h |-> <<Cnt(x), Cnt(Tail(x)), [k |-> "len", n |-> 7], [k |-> "rst"], Cnt(x)>>]>>
Odd == \E w \in {99999, 88888, -88888}, n \in 2..5 :
  sc = <<Head0, [e |-> "op", f |-> "hist", t |-> "f64", den |-> 1, s |-> [i \in 1..n |-> i], h |-> <<Cnt(<<w, 1, w>>), Cnt(<<w>>)>>],
         [e |-> "op", f |-> "ord", t |-> "f64", den |-> 1, x |-> [i \in 1..n |-> IF i = 2 THEN 99999 ELSE i], q |-> <<8>>]>>
Init == Small \/ Outs \/ Hists \/ Odd
Emit == PrintT(<<"GEN", ToJson(sc)>>)
Next == FALSE /\ UNCHANGED sc
=============================================================================
