------------------------------ MODULE GenStiff ------------------------------
(* Every word of signals of a length, for every small setting, with equal      *)
(* steps; a second run on the same solver starts from scratch.                 *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Most
VARIABLES sc
Base == [conc |-> 0, hini |-> <<1, 100>>, lb |-> 0, linp |-> 1, mmax |-> 5, modn |-> 0, nmax |-> 10000, numjac |-> 0,
         pred |-> 1, stiff |-> 1, ta |-> 3, tr |-> 3, zt |-> 0]
Words == [1..Most -> {0, 1}]
Prob(w, m) == [k |-> "word", n |-> 1, w |-> w, hi |-> IF m = "DoPri5" THEN 14 ELSE 28, lo |-> 4, den |-> 4, jac |-> "num", sym |-> "no"]
Run(n, k) == [e |-> "run", s |-> 0, x0 |-> 0, x1 |-> n, xd |-> 4, y0 |-> <<1000>>, yd |-> 1, ysc |-> 1, heq |-> <<1, 4>>, oslot |-> k,
              out |-> [cb |-> 1, rec |-> 0, dcb |-> 0, drec |-> 0, file |-> 0]]
Settings == [sr : 1..3, si : 1..2, ss : 0..1, se : {0, 1}]
All == {<< [mode |-> "E"], [e |-> "new", s |-> 0, m |-> m, prob |-> Prob(w, m), par |-> Base @@ t], Run(Most, 0), Run(Most - 1, 0) >>
        : m \in {"DoPri5", "DoPri8"}, w \in Words, t \in Settings}
Init == sc \in All
Next == FALSE /\ UNCHANGED sc
Emit == PrintT(<<"GEN", ToJson(sc)>>)
=============================================================================
