----------------------------- MODULE GenNonlin -----------------------------
(* Scenario sets for the continuation solvers: every combination of method,  *)
(* way of choosing increments, stop criterion and disturbance.               *)
EXTENDS NonlinRun, Json
CONSTANTS Prop
VARIABLES sc
Cfg == [m |-> "nat", bord |-> 1, cls |-> "H211PI", dbg |-> 0, dmax |-> <<100000, 1>>, euler |-> 1, linp |-> 0, mf |-> <<1, 2>>, ncf |-> 3,
        nit |-> 6, norel |-> 0, nr |-> 0, nst |-> 12, pid |-> 0, prec |-> 1, rit |-> 1, rmax |-> 1, ta |-> 9, tb |-> 8, tg |-> 1, tr |-> 10]
\* a monotone cubic, a curve that turns back, and two coupled equations
Cubic == [k |-> "mono", n |-> 1, a |-> << <<2>> >>, q |-> <<0>>, c |-> <<1>>, p |-> <<-1>>, r |-> <<0>>, d |-> <<0>>, nnz |-> 1, sym |-> "no", hooks |-> 1]
Fold == [k |-> "para", n |-> 1, a |-> << <<0>> >>, q |-> <<1>>, c |-> <<0>>, p |-> <<-1>>, r |-> <<0>>, d |-> <<0>>, nnz |-> 0, sym |-> "no", hooks |-> 1]
Pair == [k |-> "mono", n |-> 2, a |-> << <<4, 1>>, <<-1, 3>> >>, q |-> <<0, 0>>, c |-> <<0, 1>>, p |-> <<-1, 1>>, r |-> <<0, 0>>, d |-> <<0, 0>>, nnz |-> 1, sym |-> "no", hooks |-> 1]
Systems == { <<Cubic, <<0>>, 0>>, <<Fold, <<2>>, 4>>, <<Pair, <<0, 0>>, 0>> }
Ddl == { [k |-> "auto", v |-> << <<1, 4>> >>], [k |-> "const", v |-> << <<1, 4>> >>], [k |-> "list", v |-> << <<1, 4>>, <<1, 10>>, <<1, 2>>, <<1, 4>>, <<1, 100>> >>] }
Stops == { [k |-> "steps", i |-> 1], [k |-> "steps", i |-> 4], [k |-> "maxl", v |-> <<11, 2>>], [k |-> "minl", v |-> <<-3, 2>>],
           [k |-> "maxu", i |-> 1, v |-> <<9, 4>>], [k |-> "minu", i |-> 1, v |-> <<-1, 2>>],
           [k |-> "norm", n |-> "max", b |-> 0, t |-> 1, v |-> <<5, 2>>] }
Faults == { <<>>, [supterm |-> 3] } \cup UNION { { [superr |-> <<k>>], [superr |-> <<k, k + 1>>], [superr |-> <<k, k + 1, k + 2>>] } : k \in {1, 2, 4} }
        \cup { [ggnan |-> k] : k \in {1, 3} } \cup { [ggerr |-> 3], [jacerr |-> 2], [outstop |-> 3], [outerr |-> 3] }
Run(s, y, g, st, dir, f) == [e |-> "run", s |-> s, u0 |-> y[2], l0 |-> y[3], d |-> 1, dir |-> dir, stop |-> st, ddl |-> g, f |-> f, cb |-> 1, rec |-> 1]
New(s, y, cf) == [e |-> "new", s |-> s, sys |-> y[1], cfg |-> cf]
CfgOf(m) == [Cfg EXCEPT !.m = m]
Proto == { << [prop |-> Prop], New(0, y, CfgOf(m)), Run(0, y, g, st, dir, f) >>
           : y \in Systems, m \in {"nat", "arc"}, g \in Ddl, st \in Stops, dir \in {1, -1}, f \in Faults }
\* the same run on a fresh solver, on a used one and on a disturbed one
Keyed(r) == r @@ [key |-> 1]
Same == { << [prop |-> Prop], New(0, y, CfgOf(m)), Keyed(Run(0, y, g, st, 1, <<>>)), Run(0, y, h, [k |-> "steps", i |-> 3], -1, f),
             Keyed(Run(0, y, g, st, 1, <<>>)), New(1, y, CfgOf(m)), Keyed(Run(1, y, g, st, 1, <<>>)) >>
           : y \in Systems, m \in {"nat", "arc"}, g \in Ddl, h \in Ddl, st \in Stops, f \in {<<>>, [superr |-> <<2>>], [ggerr |-> 2], [ggnan |-> 3]} }
All == IF Prop = "N02" THEN Same ELSE Proto
Init == sc \in All
Emit == PrintT(<<"GEN", ToJson(sc)>>)
Next == FALSE /\ UNCHANGED sc
=============================================================================
