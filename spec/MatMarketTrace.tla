--------------------------- MODULE MatMarketTrace ---------------------------
(* Validates recorded writes and reads of real files against MatMarket.       *)
EXTENDS MatMarket, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
CX == Trace[l].cx = 1
Mx(m) == Mat(m.nrow, m.ncol, 0, m.sym, m.trip)

ReadOk(e) ==
  LET r == ReadResult(disk[e.f], e.h) IN
  IF r.st = "reject" THEN e.st \in {"err", "panic"}
  ELSE IF e.herm = 1 THEN e.st \in {"err", "panic"} \/ (e.st = "ok" /\ e.dense = Dense(r.x))
  ELSE e.st = "ok" /\ (e.iscx = r.cx) /\ e.nrow = r.x.nrow /\ e.ncol = r.x.ncol /\ e.sym = r.x.sym
       /\ e.nnz = Len(r.x.trip) /\ e.dense = Dense(r.x)
WriteOk(e) == e.st = "ok" /\ (IF e.vis = 1 THEN VisWritten(Mx(e.m), CX, e.tol, e.lines) ELSE Written(Mx(e.m), CX, e.tol, e.lines))

Set1(f, v) == [n \in DOMAIN disk \cup {f} |-> IF n = f THEN v ELSE disk[n]]
Act ==
  LET e == Ev IN
  CASE e.e = "reset" -> disk' = <<>>
    [] e.e \in {"mmwrite", "mmput"} -> disk' = Set1(e.f, e.lines)
    [] e.e = "mmedit" -> disk' = Set1(e.f, Edit(disk[e.f], e.op, e.at, e.ln))
    [] OTHER -> UNCHANGED disk
Agrees ==
  LET e == Ev IN
  CASE e.e = "mmwrite" -> WriteOk(e)
    [] e.e = "mmread" -> ReadOk(e)
    [] OTHER -> TRUE

TInit == SInit /\ disk = <<>> /\ l = 1
TNext ==
  /\ l <= Len(Trace)
  /\ UNCHANGED svars /\ Act
  /\ IF Agrees THEN l' = l + 1 ELSE PrintT(<<"MISMATCH", l>>) /\ l' = Ev.nx
  /\ (l' > Len(Trace) => PrintT(<<"TRACE-END", Len(Trace)>>))
=============================================================================
