---------------------------- MODULE TensorTrace ----------------------------
EXTENDS Tensor, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]

\* a rejected array may leave an order three or four tensor partly written: the rest is taken as found
After(o, e) == IF e.f = "std" /\ o.st = "err" /\ e.st = "err" /\ o.t.r > 2 /\ e.via < 2 THEN [o.t EXCEPT !.x = e.v1.a] ELSE o.t
Good(o, e) ==
  /\ e.st = o.st
  /\ e.st # "panic" => LET t == After(o, e) IN Len(e.v1.a) = Size(t.r) /\ Holds(t.r, t.ca, t.rp, t.x) /\ Shows(t, e.v1)
TInit == l = 1 /\ ten = Blank(2)
TNext ==
  /\ l <= Len(Trace)
  /\ LET e == Ev IN
     IF e.e = "reset" THEN l' = l + 1 /\ ten' = Blank(e.r)
     ELSE LET o == TLCEval(Does(ten, e)) IN
          IF Good(o, e) THEN l' = l + 1 /\ ten' = After(o, e)
          ELSE PrintT(<<"MISMATCH", l>>) /\ l' = e.nx /\ ten' = ten
  /\ (l' > Len(Trace) => PrintT(<<"TRACE-END", Len(Trace)>>))
=============================================================================
