---------------------------- MODULE SparseTrace -----------------------------
(* Validates recorded calls on real sparse matrices against Sparse.           *)
EXTENDS Sparse, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]

Slot(s) == s \in DOMAIN coo

ShowOk(x, e) ==
  /\ e.st = "ok" /\ e.wrong
  /\ e.nrow = x.nrow /\ e.ncol = x.ncol /\ e.sym = x.sym
  /\ e.nnz = Len(x.trip) /\ e.nnz2 = e.nnz /\ e.annz = ActualNnz(x)
  /\ e.dense = Dense(x) /\ e.dense2 = e.dense
  /\ Len(e.trip) = Len(x.trip)
  /\ Dense([x EXCEPT !.trip = e.trip]) = Dense(x)
  /\ Positions([x EXCEPT !.trip = e.trip]) = Positions(x)

\* v must be long enough; entries past the matrix are zeroed (plain) or kept (accumulating)
MulOk(x, e) ==
  LET t == e.e = "tmul"
      nu == IF t THEN x.nrow ELSE x.ncol
      nv == IF t THEN x.ncol ELSE x.nrow
      ok == Len(e.u) >= nu /\ Len(e.v) >= nv
      p == IF t THEN MatTVec(Dense(x), e.alpha, e.u) ELSE MatVec(Dense(x), e.alpha, e.u)
  IN IF ok THEN /\ e.st = "ok"
                /\ Len(e.w) = Len(e.v)
                /\ \A i \in 1..Len(e.w) :
                     LET base == IF e.e = "mulup" THEN e.v[i] ELSE CZ
                     IN e.w[i] = IF i <= nv THEN CAdd(base, p[i]) ELSE base
           ELSE e.st = "err" /\ e.w = e.v

CMulOk(x, e) ==
  IF Len(e.u) = x.ncol /\ Len(e.v) = x.nrow
  THEN e.st = "ok" /\ e.w = MatVec(Dense(x), e.alpha, e.u)
  ELSE e.st = "err" /\ e.w = e.v

UpdOk(c, x, e, byCol) ==
  IF ~Refreshable(c, x) THEN e.st = "err" /\ CompressedOf(c, e, byCol, c.made # "raw")
  ELSE IF Len(x.trip) = Len(c.trip) /\ c.made = "coo" THEN e.st = "ok" /\ CompressedOf(x, e, byCol, TRUE)
  ELSE IF e.st = "ok" THEN CompressedOf(x, e, byCol, TRUE) ELSE e.st = "err" /\ CompressedOf(c, e, byCol, c.made # "raw")

RawDense(o, byCol) ==
  LET no == IF byCol THEN o.ncol ELSE o.nrow
  IN Dense(Mat(o.nrow, o.ncol, 0, o.sym, Entries(o.ptr, o.idx, o.val, no, byCol)))

Keep == UNCHANGED svars

\* the step of the spec for the current event, and whether the observation agrees (in ok)
Fix(x) == [nrow |-> x.nrow, ncol |-> x.ncol, sym |-> x.sym, trip |-> x.trip, made |-> "coo"]
Conv(x) == [x EXCEPT !.made = IF @ = "raw" THEN @ ELSE "conv"]

Reset == coo' = <<>> /\ csc' = <<>> /\ csr' = <<>> /\ out' = "ok"

Act ==
  LET e == Ev IN
  CASE e.e = "reset" -> Reset
    [] e.e = "new"   -> New(e.k, e.nrow, e.ncol, e.cap, e.sym)
    [] e.e = "from"  -> From(e.k, e.nrow, e.ncol, e.ii, e.jj, e.vv, e.sym)
    [] e.e = "put"   -> Put(e.k, e.i, e.j, e.v)
    [] e.e = "clear" -> Clear(e.k)
    [] e.e \in {"assign", "assign_real"} -> Assign(e.k, e.alpha, e.o)
    [] e.e \in {"add", "add_real"}       -> Add(e.k, e.alpha, e.o)
    [] e.e = "lagrange"  -> Lagrange(e.k, e.o)
    [] e.e = "scalevals" -> ScaleVals(e.k, e.alpha)
    [] e.e \in {"show", "mul", "mulup", "tmul", "csc_mul", "csr_mul"} -> Keep
    [] e.e = "csc" -> /\ csc' = IF coo[e.o].trip = <<>> THEN csc ELSE Set(csc, e.k, Fix(coo[e.o]))
                      /\ out' = (IF coo[e.o].trip = <<>> THEN "err" ELSE "ok") /\ UNCHANGED <<coo, csr>>
    [] e.e = "csr" -> /\ csr' = IF coo[e.o].trip = <<>> THEN csr ELSE Set(csr, e.k, Fix(coo[e.o]))
                      /\ out' = (IF coo[e.o].trip = <<>> THEN "err" ELSE "ok") /\ UNCHANGED <<coo, csc>>
    [] e.e = "csc_upd" -> /\ csc' = IF e.st = "ok" THEN Set(csc, e.k, [Fix(coo[e.o]) EXCEPT !.made = csc[e.k].made]) ELSE csc
                          /\ out' = e.st /\ UNCHANGED <<coo, csr>>
    [] e.e = "csr_upd" -> /\ csr' = IF e.st = "ok" THEN Set(csr, e.k, [Fix(coo[e.o]) EXCEPT !.made = csr[e.k].made]) ELSE csr
                          /\ out' = e.st /\ UNCHANGED <<coo, csc>>
    [] e.e = "csc_of_csr" -> csc' = Set(csc, e.k, Conv(csr[e.o])) /\ out' = "ok" /\ UNCHANGED <<coo, csr>>
    [] e.e = "csr_of_csc" -> csr' = Set(csr, e.k, Conv(csc[e.o])) /\ out' = "ok" /\ UNCHANGED <<coo, csc>>
    [] e.e = "csc_raw" -> /\ out' = IF RawAllowed(e, TRUE) THEN "ok" ELSE "err"
                          /\ csc' = IF RawAllowed(e, TRUE) THEN Set(csc, e.k,
                               [nrow |-> e.nrow, ncol |-> e.ncol, sym |-> e.sym, made |-> "raw",
                                trip |-> Entries(e.ptr, e.idx, e.val, e.ncol, TRUE)]) ELSE csc
                          /\ UNCHANGED <<coo, csr>>
    [] e.e = "csr_raw" -> /\ out' = IF RawAllowed(e, FALSE) THEN "ok" ELSE "err"
                          /\ csr' = IF RawAllowed(e, FALSE) THEN Set(csr, e.k,
                               [nrow |-> e.nrow, ncol |-> e.ncol, sym |-> e.sym, made |-> "raw",
                                trip |-> Entries(e.ptr, e.idx, e.val, e.nrow, FALSE)]) ELSE csr
                          /\ UNCHANGED <<coo, csc>>

\* a slot whose content is unspecified (capacity ran out half way) constrains nothing until it is cleared
Poisoned ==
  LET e == Ev IN
  \/ "k" \in DOMAIN e /\ e.e \notin {"new", "from", "clear", "csc", "csr", "csc_upd", "csr_upd", "csc_of_csr", "csr_of_csc",
                                      "csc_mul", "csr_mul", "csc_raw", "csr_raw"}
     /\ e.k \in DOMAIN coo /\ coo[e.k].bad
  \/ "o" \in DOMAIN e /\ e.e \in {"assign", "add", "assign_real", "add_real", "lagrange", "csc", "csr", "csc_upd", "csr_upd"}
     /\ e.o \in DOMAIN coo /\ coo[e.o].bad

Agrees ==
  LET e == Ev IN
  CASE e.e = "reset" -> TRUE
    [] e.e = "show"  -> ShowOk(coo[e.k], e)
    [] e.e \in {"mul", "mulup", "tmul"} -> MulOk(coo[e.k], e)
    [] e.e = "csc_mul" -> CMulOk(csc[e.k], e)
    [] e.e = "csr_mul" -> CMulOk(csr[e.k], e)
    [] e.e = "csc" -> e.st = out' /\ (e.st = "ok" => CompressedOf(coo[e.o], e, TRUE, TRUE))
    [] e.e = "csr" -> e.st = out' /\ (e.st = "ok" => CompressedOf(coo[e.o], e, FALSE, TRUE))
    [] e.e = "csc_upd" -> UpdOk(csc[e.k], coo[e.o], e, TRUE)
    [] e.e = "csr_upd" -> UpdOk(csr[e.k], coo[e.o], e, FALSE)
    [] e.e = "csc_of_csr" -> e.st = "ok" /\ CompressedOf(csr[e.o], e, TRUE, csr[e.o].made # "raw")
    [] e.e = "csr_of_csc" -> e.st = "ok" /\ CompressedOf(csc[e.o], e, FALSE, csc[e.o].made # "raw")
    [] e.e = "csc_raw" -> e.st = out' /\ (e.st = "ok" => e.dense = RawDense(e, TRUE))
    [] e.e = "csr_raw" -> e.st = out' /\ (e.st = "ok" => e.dense = RawDense(e, FALSE))
    [] OTHER -> e.st = out'

TInit == SInit /\ l = 1
TNext ==
  /\ l <= Len(Trace)
  /\ IF Poisoned
     THEN Keep /\ l' = Ev.nx /\ PrintT(<<"SKIP", l>>)
     ELSE /\ Act
          /\ IF Agrees THEN l' = l + 1 ELSE PrintT(<<"MISMATCH", l>>) /\ l' = Ev.nx
  /\ (l' > Len(Trace) => PrintT(<<"TRACE-END", Len(Trace)>>))
=============================================================================
