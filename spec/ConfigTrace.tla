----------------------------- MODULE ConfigTrace ----------------------------
(* Validates recorded settings and solver updates against Config. *)
EXTENDS Config, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, c, par, sols, memo
Ev == Trace[l]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Bad == PrintT(<<"MISMATCH", l>>) /\ l' = Ev.nx
Go(ok) == IF ok THEN l' = l + 1 ELSE Bad
Like(e, good) == e.st = (IF good THEN "ok" ELSE "err")
\* runs of solvers that hold the same parameters agree in everything
Key(e) == [q |-> e.eq, sol |-> sols[e.s]]
What(e) == <<e.st, e.y, e.k>>
Agrees(e) == \A i \in 1..Len(memo) : memo[i][1].q = e.eq /\ memo[i][1].sol.m = sols[e.s].m /\ memo[i][1].sol = sols[e.s] => memo[i][2] = What(e)
TInit == l = 1 /\ c = <<>> /\ par = <<>> /\ sols = <<>> /\ memo = <<>>
TNext ==
  /\ l <= Len(Trace)
  /\ LET e == Ev IN
     CASE e.e = "reset" -> c' = <<>> /\ par' = <<>> /\ sols' = <<>> /\ memo' = <<>> /\ l' = l + 1
       [] e.e = "cnew" -> c' = e.g /\ UNCHANGED <<par, sols, memo>> /\ Go(e.st = "ok" /\ Admissible(e.g) /\ (c = <<>> \/ DOMAIN c = DOMAIN e.g))
       [] e.e = "cset" -> LET n == Set(c, e.f, e.v) IN c' = n /\ UNCHANGED <<par, sols, memo>> /\ Go(e.st = "ok" /\ e.g = n)
       [] e.e = "cmake" -> UNCHANGED <<c, par, sols, memo>> /\ Go(Like(e, Admissible(c)))
       [] e.e = "pnew" -> par' = [m |-> e.m, p |-> e.g, t |-> <<0, 0, 0>>] /\ UNCHANGED <<c, sols, memo>> /\ Go(e.st = "ok" /\ Proper(e.g))
       [] e.e = "pset" -> LET n == [par.p EXCEPT ![e.f] = e.v] IN par' = [par EXCEPT !.p = n] /\ UNCHANGED <<c, sols, memo>> /\ Go(e.g = n)
       [] e.e = "ptol" -> /\ UNCHANGED <<c, sols, memo>>
                          /\ par' = (IF TolProper(e.a, e.r) THEN [par EXCEPT !.t = <<e.a, e.r, e.n>>] ELSE par)
                          /\ Go(Like(e, TolProper(e.a, e.r)) /\ e.g = par.p)
       [] e.e = "make" -> /\ UNCHANGED <<c, par, memo>>
                          /\ sols' = (IF Proper(par.p) THEN Put(sols, e.s, par) ELSE sols)
                          /\ Go(Like(e, Proper(par.p)))
       [] e.e = "upd" -> /\ UNCHANGED <<c, par, memo>>
                         /\ sols' = [sols EXCEPT ![e.s] = Updated(@, par)]
                         /\ Go(Like(e, MayUpdate(sols[e.s], par)))
       [] e.e = "run" -> UNCHANGED <<c, par, sols>> /\ memo' = Append(memo, <<Key(e), What(e)>>) /\ Go(e.st # "panic" /\ Agrees(e))
  /\ (l' > Len(Trace) => PrintT(<<"TRACE-END", Len(Trace)>>))
=============================================================================
