----------------------------- MODULE ApproxTrace -----------------------------
EXTENDS Approx, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Agrees == LET e == Ev IN IF e.e = "op" THEN Ok(e) ELSE e.e = "reset"
TInit == l = 1
TNext ==
  /\ l <= Len(Trace)
  /\ IF Agrees THEN l' = l + 1 ELSE PrintT(<<"MISMATCH", l>>) /\ l' = Ev.nx
  /\ (l' > Len(Trace) => PrintT(<<"TRACE-END", Len(Trace)>>))
=============================================================================
