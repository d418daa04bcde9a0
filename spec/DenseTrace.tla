----------------------------- MODULE DenseTrace -----------------------------
(* Validates recorded programs of dense operations against Dense.             *)
EXTENDS Dense, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, pool
Ev == Trace[l]
Outs(e) == [k \in 1..Len(e.o) |-> pool[e.o[k]]]
Ins(e) == [k \in 1..Len(e.i) |-> pool[e.i[k]]]
NearOk(e, i) ==
  LET far == Same(i[1], i[2]) /\ LET d == Flat(Diff(i[1], i[2])) IN \E k \in 1..Len(d) : Max2(Abs(d[k][1]), Abs(d[k][2])) > e.s[1][1]
  IN e.st = IF Same(i[1], i[2]) /\ ~far THEN "ok" ELSE "panic"
OpOk(e) ==
  LET o == Outs(e)
      i == Ins(e)
      yes == Accepts(e, o, i)
  IN e.kept /\
     IF e.f = "near" THEN (Same(i[1], i[2]) /\ Len(Flat(i[1])) = 0) \/ NearOk(e, i)
     ELSE IF yes THEN e.st = "ok" /\ (Beyond(e, o, i) \/ (e.out = Result(e, o, i) /\ Answer(e, i, e)))
     ELSE e.st = (IF ByError(e.f) THEN "err" ELSE "panic") /\ e.out = o
Agrees == LET e == Ev IN IF e.e = "op" THEN OpOk(e) ELSE e.e \in {"new", "reset"}
Put(e) == IF e.e = "new" THEN (e.o :> e.val) @@ pool
          ELSE IF e.e = "op" THEN FoldLeft(LAMBDA p, k : (e.o[k] :> e.out[k]) @@ p, pool, Idx(Len(e.o)))
          ELSE << >>
TInit == l = 1 /\ pool = << >>
TNext ==
  /\ l <= Len(Trace)
  /\ IF Agrees THEN l' = l + 1 /\ pool' = Put(Ev)
     ELSE PrintT(<<"MISMATCH", l>>) /\ l' = Ev.nx /\ pool' = << >>
  /\ (l' > Len(Trace) => PrintT(<<"TRACE-END", Len(Trace)>>))
=============================================================================
