------------------------------- MODULE GenText ------------------------------
(* Every small file: up to N lines of up to two tokens of every kind, read as *)
(* a table with and without expected labels, and as a matrix.                 *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N
VARIABLES sc
Tok == {[k |-> "num", v |-> 10, s |-> "2.5"], [k |-> "bad", v |-> 0, s |-> "a"], [k |-> "bad", v |-> 0, s |-> "b"], [k |-> "hash", v |-> 0, s |-> "#"]}
Line == {<< >>} \cup {<<t>> : t \in Tok} \cup (Tok \X Tok)
File(n) == [1..n -> Line]
Op(f, x, lab, labels) == [e |-> "op", f |-> f, lines |-> x, lab |-> lab, labels |-> labels, lay |-> 17, layk |-> 5, cut |-> 1]
All(x) == <<[e |-> "reset", prop |-> "L04"], Op("table", x, 0, << >>), Op("table", x, 1, <<"a">>), Op("table", x, 1, <<"a", "b">>), Op("table", x, 2, <<"a", "b">>), Op("mat", x, 0, << >>)>>
Init == \E n \in 0..N : \E x \in File(n) : sc = All(x)
Emit == PrintT(<<"GEN", ToJson(sc)>>)
Next == FALSE /\ UNCHANGED sc
=============================================================================
