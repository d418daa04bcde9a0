------------------------------ MODULE MC_Config -----------------------------
(* All short histories of settings and of solver updates. *)
EXTENDS Config, SequencesExt
CONSTANTS Depth
VARIABLES c, h, par, sol, told
vars == <<c, h, par, sol, told>>
C0 == [verb |-> 0, verbi |-> 0, verbs |-> 0, tad |-> 1000, trd |-> 1000, tar |-> 1000, mf |-> 5000, dmax |-> 10, nbeta |-> 5000, tgt |-> 10, nst |-> 9, ncf |-> 5, ncr |-> 5, nit |-> 20,
       nrd |-> 3, ndd |-> 5, nopt |-> 3, b1 |-> 12, b2 |-> 12, b3 |-> 0, a2 |-> 0, a3 |-> 0]
Calls == {<<"verb", 1>>, <<"verbs", 1>>, <<"verb3", <<1, 0, 1>>>>, <<"verb3", <<0, 1, 0>>>>, <<"tad", 9>>, <<"tad", 10>>, <<"trd", 9>>, <<"told", <<10, 11>>>>, <<"told", <<11, 9>>>>,
          <<"sod", <<1, 2>>>>, <<"sod", <<8, 2>>>>, <<"b1", 5>>, <<"a3", 7>>, <<"nit", 0>>, <<"nit", 1>>}
P0 == [nit |-> 7, nmax |-> 100, mmin |-> 2000, mmax |-> 100000, msaf |-> 9000, mrej |-> 1000, hini |-> 100000, rmin |-> 100000, theta |-> 100000, c1h |-> 10000, c2h |-> 12000, beta |-> 400, lm |-> 7500]
Moves == {<<"mmin", 9>>, <<"mmin", 150>>, <<"mmax", 100>>, <<"mmax", 200>>, <<"c1h", 13000>>, <<"c2h", 14000>>}
Init == c = C0 /\ h = <<>> /\ par = [m |-> "DoPri5", p |-> P0] /\ sol = None /\ told = <<>>
Setting == \E x \in Calls : c' = Set(c, x[1], x[2]) /\ h' = Append(h, x) /\ UNCHANGED <<par, sol, told>>
Change == \/ \E x \in Moves : par' = [par EXCEPT !.p[x[1]] = x[2]] /\ UNCHANGED <<c, sol>> /\ h' = Append(h, x) /\ told' = told
          \/ par' = [m |-> "Radau5", p |-> P0] /\ UNCHANGED <<c, sol, told>> /\ h' = Append(h, <<"method", 0>>)
          \/ sol' = Made(sol, par) /\ UNCHANGED <<c, par>> /\ h' = Append(h, <<"make", 0>>) /\ told' = IF Proper(par.p) THEN <<par>> ELSE told
          \/ sol # None /\ sol' = Updated(sol, par) /\ UNCHANGED <<c, par>> /\ h' = Append(h, <<"upd", 0>>) /\ told' = IF MayUpdate(sol, par) THEN Append(told, par) ELSE told
Next == Len(h) < Depth /\ (IF Len(h) = 0 THEN Setting \/ Change ELSE IF c # C0 \/ h[1][1] \in {x[1] : x \in Calls} THEN Setting ELSE Change)

\* the last call that writes a field decides, and fields nobody wrote keep their first value
Writes(x, f) == CASE x[1] = "verb3" -> f \in {"verb", "verbi", "verbs"} [] x[1] = "told" -> f \in {"tad", "trd"}
                  [] x[1] = "sod" -> f \in {"b1", "b2", "b3", "a2", "a3"} [] OTHER -> x[1] = f
LastWins == h = <<>> \/ h[1] \notin Calls \/
  \A f \in DOMAIN C0 : LET w == {i \in 1..Len(h) : Writes(h[i], f)}
                       IN IF w = {} THEN c[f] = C0[f] ELSE LET i == CHOOSE i \in w : \A j \in w : j <= i IN c[f] = Set(C0, h[i][1], h[i][2])[f]
\* a solver only ever holds proper parameters of one method: those of the last accepted call
Held == sol # None => Proper(sol.p) /\ sol = told[Len(told)] /\ \A i \in 1..Len(told) : told[i].m = told[1].m
\* each range is needed: every admissible record has every field in range, and one field out of range is enough to refuse
Sharp == \A f \in Counts : ~Admissible([c EXCEPT ![f] = 0])
=============================================================================
