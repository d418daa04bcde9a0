------------------------------ MODULE GenConfig -----------------------------
(* Stimuli: every value around the ends of every range, alone, in pairs and before and after other calls. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Prop
VARIABLES sc
Cont == [method |-> {0, 1}, log |-> {1, 4}, verb |-> {0, 1}, verbi |-> {0, 1}, verbs |-> {0, 1}, verbl |-> {0, 1}, verbh |-> {0, 1}, hide |-> {0, 1}, rit |-> {0, 1}, prec |-> {0, 1},
         mf |-> {0, 9, 10, 11}, nst |-> {0, 1, 2}, ncf |-> {0, 1, 2}, ncr |-> {0, 1, 2}, tar |-> {0, 9, 10, 11}, tad |-> {0, 9, 10, 11}, trd |-> {0, 9, 10, 11}, dmax |-> {-1, 0, 1}, norel |-> {0, 1},
         nit |-> {0, 1, 2}, nrd |-> {0, 1, 2}, ndd |-> {0, 1, 2}, euler |-> {0, 1}, bord |-> {0, 1}, dbg |-> {0, 1}, nrc |-> {0, 1}, tgc |-> {0, 1}, pid |-> {0, 1}, rmin |-> {1, 7},
         rho |-> {5000, 20000}, nopt |-> {0, 1, 2}, nbeta |-> {-1, 0, 1}, rtype |-> {0, 1}, tgt |-> {0, 1, 2}, b1 |-> {-5, 5}, b2 |-> {-6, 6}, b3 |-> {-7, 7}, a2 |-> {-8, 8}, a3 |-> {-9, 9}]
Wides == { <<"verb3", <<a, b, d>>>> : a \in {0, 1}, b \in {0, 1}, d \in {0, 1} } \cup { <<"told", <<a, b>>>> : a \in {9, 10, 20}, b \in {9, 10, 30} } \cup { <<"sod", <<k, b>>>> : k \in 1..8, b \in {2, 9} }
Calls == UNION { { <<f, v>> : v \in Cont[f] } : f \in DOMAIN Cont } \cup Wides
S(x) == [e |-> "cset", f |-> x[1], v |-> x[2]]
M == [e |-> "cmake"]
Hi(f) == CHOOSE v \in Cont[f] : \A w \in Cont[f] : w <= v
ScN == { << [e |-> "reset", prop |-> "N04"], [e |-> "cnew"], M, S(x), M, S(<<g, Hi(g)>>), M, [e |-> "cnew"], M >> : x \in Calls, g \in DOMAIN Cont }

Pars == [nit |-> {0, 1, 2}, mmin |-> {-1, 0, 9, 10, 99, 4999, 5001}, mmax |-> {50, 99, 100, 2000, 2001, 200000, 200001}, msaf |-> {0, 999, 1000, 10000, 10001}, mrej |-> {-1, 0, 1}, hini |-> {-1, 0, 9, 10, 1000000},
         nmax |-> {0, 1, 400}, rmin |-> {0, 9, 10}, theta |-> {0, 9, 10}, c1h |-> {4999, 5000, 11999, 12000, 15000}, c2h |-> {9999, 10000, 10001, 20000, 20001}, beta |-> {-1, 0, 1000, 1001}, lm |-> {-1, 0, 10000, 10001}]
P(f, v) == [e |-> "pset", f |-> f, v |-> v]
R(s, q) == [e |-> "run", s |-> s, eq |-> q]
Mk(s) == [e |-> "make", s |-> s]
Up == [e |-> "upd", s |-> 0]
Eq(m) == IF m \in {"BwEuler", "Rk4"} THEN 1 ELSE 0
Start(m) == << [e |-> "reset", prop |-> "O06"], [e |-> "pnew", m |-> m], P("nmax", 600), Mk(0) >>
ScP == UNION { UNION { { Start(m) \o (IF a = 1 THEN << R(0, Eq(m)) >> ELSE <<>>) \o << P(f, v), Up, R(0, Eq(m)), Mk(1), R(1, Eq(m)), [e |-> "pnew", m |-> m], P("nmax", 600), Mk(2), R(2, Eq(m)), Up, R(0, Eq(m)) >>
               : v \in Pars[f], a \in {0, 1} } : f \in DOMAIN Pars } : m \in {"Radau5", "BwEuler", "DoPri5", "DoPri8", "Merson4", "Rk4"} }
ScT == { Start(m) \o << [e |-> "ptol", a |-> a, r |-> r, n |-> n], Up, R(0, Eq(m)), Mk(1), R(1, Eq(m)), [e |-> "ptol", a |-> 6, r |-> 6, n |-> 0], Mk(2), R(2, Eq(m)), Up, R(0, Eq(m)) >>
         : m \in {"Radau5", "DoPri5", "BwEuler"}, a \in {3, 6, 14, 15, 16}, r \in {3, 6, 14, 15, 16}, n \in {0, 4} }
ScM == { Start(m) \o << [e |-> "pnew", m |-> k], Up, R(0, Eq(m)), Mk(1), R(1, IF Eq(k) = 1 THEN 1 ELSE Eq(m)) >> : m \in {"Radau5", "DoPri5", "Rk4"}, k \in {"Radau5", "DoPri5", "DoPri8", "BwEuler", "Rk4"} }
Init == sc \in IF Prop = "N04" THEN ScN ELSE ScP \cup ScT \cup ScM
Emit == PrintT(<<"GEN", ToJson(sc)>>)
Next == FALSE /\ UNCHANGED sc
=============================================================================
