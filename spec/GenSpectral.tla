---------------------------- MODULE GenSpectral ----------------------------
(* Manufactured problems for every combination of conditions on the sides.   *)
EXTENDS Spectral, Json
VARIABLES sc
Cut(p, nx, ny, tot) == PMake(4, LAMBDA x, y : IF x <= nx /\ y <= ny /\ x + y - 2 <= tot THEN p[x][y] ELSE 0)
Full == << <<1, -2, 1, 1, 2>>, <<3, 1, -1, 2, 0>>, <<-2, 1, 1, 0, 0>>, <<1, 1, 0, 0, 0>>, <<-1, 0, 0, 0, 0>> >>
BoxQuad == <<<<-1, -2>>, <<2, -2>>, <<2, 1>>, <<-1, 1>>>>
SkewQuad == <<<<-3, -2>>, <<3, -4>>, <<4, 3>>, <<-4, 1>>>>
Quads == { BoxQuad, SkewQuad, <<<<4, -4>>, <<4, 2>>, <<-1, 4>>, <<1, -1>>>> }
Make(kind, nx, ny, d, q, bend, k, al, sides) ==
  LET c0 == [e |-> "spc", kind |-> kind, gx |-> nx, gy |-> ny, d |-> d, quad |-> q, box |-> <<q[1][1], q[3][1], q[1][2], q[3][2]>>, bend |-> bend, k |-> k, al |-> al, sides |-> sides]
      low == IF nx < ny THEN nx ELSE ny
      phi == CASE kind = "1d" -> Cut(Full, nx, 1, 4) [] kind = "2d" -> Cut(Full, nx, ny, 4)
               [] OTHER -> Cut(Full, 5, 5, IF bend[1] # <<0, 0>> THEN (low - 1) \div 2 ELSE Min2(low - 1, 4))
      n(s) == NormalOf(c0, s)
  IN [e |-> "spc", kind |-> kind, gx |-> nx, gy |-> ny, d |-> d, quad |-> q, box |-> c0.box, bend |-> bend, k |-> k, al |-> al, sides |-> sides,
      phi |-> phi, src |-> SourceOf(phi, k, al), flux |-> [s \in 1..4 |-> OutflowOf(phi, k, n(s))], len2 |-> [s \in 1..4 |-> n(s)[1] * n(s)[1] + n(s)[2] * n(s)[2]]]
Flat == <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>
VF == {"v", "f"}
All == { <<[prop |-> "D03"], Make("1d", nx, 1, 2, BoxQuad, Flat, <<2, 1>>, al, <<a, b, "v", "v">>)>> : nx \in 2..9, al \in {0, 3}, a \in VF, b \in VF }
  \cup { <<[prop |-> "D03"], Make("2d", nx, ny, 2, BoxQuad, Flat, <<2, 3>>, al, <<a, b, c, d>>)>> : nx \in {2, 3, 5}, ny \in {3, 4}, al \in {0, 3}, a \in VF, b \in VF, c \in VF, d \in VF }
  \cup { <<[prop |-> "D03"], Make("map", nx, ny, 4, q, Flat, <<3, 3>>, al, <<a, b, c, d>>)>> : q \in Quads, nx \in {3, 5}, ny \in {4, 6}, al \in {0, 2}, a \in VF, b \in VF, c \in VF, d \in VF }
  \cup { <<[prop |-> "D03"], Make("map", nx, ny, 4, q, <<<<1, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, <<1, 1>>, al, <<"v", b, c, d>>)>> : q \in {BoxQuad, SkewQuad}, nx \in {5, 6}, ny \in {4, 5}, al \in {0, 2}, b \in VF, c \in VF, d \in VF }
Init == sc \in All
Next == FALSE /\ UNCHANGED sc
Emit == PrintT(<<"GEN", ToJson(sc)>>)
=============================================================================
