---------------------------- MODULE GenMapping ----------------------------
(* Every monomial map at a lattice of points; every sample; small metrics.    *)
EXTENDS Mapping, Json
VARIABLES sc
Head2 == [e |-> "reset", prop |-> "D04"]
Lattice2 == <<<<-4, -4>>, <<-4, 1>>, <<4, -2>>, <<-1, -4>>, <<3, 4>>, <<2, -3>>, <<-3, 1>>, <<0, 0>>>>
Lattice3 == <<<<-4, 1, 2>>, <<4, -1, 3>>, <<1, -4, -2>>, <<-2, 4, 1>>, <<3, 2, -4>>, <<-1, -3, 4>>, <<1, 2, -3>>, <<-3, 1, 2>>, <<4, 4, -1>>>>
Map(dim, a, b, c, d2) ==
  LET t == << <<a, b, c, 2>>, <<0, 0, 0, 1>> >>
      u == << <<b, a, c, -3>>, <<1, 0, 0, 1>> >>
      w == << <<c, b, a, 1>>, <<0, 1, 0, -1>> >>
  IN <<Head2, [e |-> "map", dim |-> dim, d2 |-> d2, n |-> <<2 * dim, 2 * dim, 2 * dim>>, terms |-> IF dim = 2 THEN <<t, u>> ELSE <<t, u, w>>,
              pts |-> IF dim = 2 THEN Lattice2 ELSE Lattice3]>>
Samp(kind, q) == <<Head2, [e |-> "samp", kind |-> kind, par |-> q, pts |-> IF SDim(kind) = 2 THEN Lattice2 ELSE Lattice3]>>
Tri(nr, ns, cr, cs) == <<Head2, [e |-> "tri", nr |-> nr, ns |-> ns, cr |-> cr, cs |-> cs, terms |-> << << <<1, 0, 0, 2>>, <<0, 0, 0, 1>> >>, << <<0, 1, 0, -1>>, <<0, 0, 0, -2>> >> >>]>>
Met(d) == <<Head2, [e |-> "mnew", dim |-> 2, hom |-> 0], [e |-> "met", call |-> 2, d |-> <<<<3, 1>>, <<-1, 2>>>>, dd |-> <<<<1, 2>>, <<3, -1>>, <<2, 2>>>>],
            [e |-> "met", call |-> 2, d |-> d, dd |-> <<<<1, 0>>, <<0, 2>>, <<-1, 3>>>>]>>
All == {Map(2, a, b, 0, 1) : a \in 0..3, b \in 0..3} \cup {Map(2, a, b, 0, 0) : a \in 0..1, b \in 0..1}
  \cup {Map(3, a, b, c, 1) : a \in 0..3, b \in 0..3, c \in 0..3} \cup {Map(3, x[1], x[2], x[3], 0) : x \in {<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>}}
  \cup {Samp(k, <<a, b>>) : k \in {"quarter", "half", "lozenge"}, a \in 1..3, b \in 4..6}
  \cup {Samp("brick", <<a, b, 2>>) : a \in 1..2, b \in 3..4} \cup {Samp("ring3", <<a, b, 2>>) : a \in 1..2, b \in 3..4}
  \cup {Samp("quad", <<-1, -2, 3, -1, 4, 5, a, b>>) : a \in -3..0, b \in 1..3}
  \cup {Tri(nr, ns, cr, cs) : nr \in 2..6, ns \in 2..6, cr \in {0, 1}, cs \in {0, 1}}
  \cup {Met(<<<<a, b>>, <<c, d>>>>) : a \in -2..2, b \in -2..2, c \in -2..2, d \in -2..2}
Init == sc \in All
Next == FALSE /\ UNCHANGED sc
Emit == PrintT(<<"GEN", ToJson(sc)>>)
=============================================================================
