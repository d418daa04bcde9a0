---------------------------- MODULE MC_LinSolver ----------------------------
(* All call histories over a pool of matrices: two regular ones of the same   *)
(* structure, a singular one of the same structure, others that differ.       *)
EXTENDS LinSolver, Json
CONSTANTS Depth, Gen
VARIABLES hist, last
vars == <<lvars, svars, hist, last>>

R(a) == <<a, 0>>
T(es) == [k \in 1..Len(es) |-> <<es[k][1], es[k][2], es[k][3]>>]
Pool == [
  a  |-> Mat(2, 2, 9, "no", << <<0,0,<<2,1>>>>, <<0,1,R(1)>>, <<1,0,R(-1)>>, <<1,1,R(3)>> >>),
  b  |-> Mat(2, 2, 9, "no", << <<1,1,R(1)>>, <<0,0,R(1)>>, <<0,1,R(-2)>>, <<1,0,<<0,3>>>> >>),
  s  |-> Mat(2, 2, 9, "no", << <<0,0,R(0)>>, <<0,1,R(0)>>, <<1,0,R(1)>>, <<1,1,R(1)>> >>),
  p  |-> Mat(2, 2, 9, "no", << <<0,0,R(2)>>, <<0,0,R(1)>>, <<1,1,R(4)>>, <<1,1,R(1)>> >>),
  f  |-> Mat(2, 2, 9, "full", << <<0,0,R(4)>>, <<0,1,R(1)>>, <<1,0,R(1)>>, <<1,1,R(3)>> >>),
  lo |-> Mat(2, 2, 9, "lower", << <<0,0,R(4)>>, <<1,0,R(1)>>, <<1,1,R(3)>> >>),
  z  |-> Mat(2, 2, 9, "no", << >>),
  t  |-> Mat(3, 3, 9, "no", << <<0,0,R(1)>>, <<1,2,R(2)>>, <<2,1,R(-1)>>, <<2,0,R(5)>> >>),
  r  |-> Mat(2, 3, 9, "no", << <<0,0,R(2)>>, <<0,1,R(1)>>, <<1,0,R(-1)>>, <<1,1,R(3)>> >>) ]
Names == DOMAIN Pool
Opts == { [given |-> FALSE, det |-> FALSE, ord |-> "auto", sca |-> "auto", uns |-> FALSE],
          [given |-> TRUE, det |-> TRUE, ord |-> "amd", sca |-> "max", uns |-> TRUE] }
B(n) == [i \in 1..n |-> <<i, 2 - i>>]
MRec(m) == [nrow |-> m.nrow, ncol |-> m.ncol, sym |-> m.sym, trip |-> m.trip]

Init == LInit /\ SInit /\ hist = <<[cx |-> 1]>> /\ last = [st |-> "ok"]
DoFact == \E nm \in Names, p \in Opts : \E o \in FactOutcomes(Pool[nm], p) :
  /\ lock' = o.lock /\ fac' = o.fac /\ wdet' = o.wdet
  /\ last' = [op |-> "fact", st |-> o.st, m |-> nm]
  /\ hist' = Append(hist, [e |-> "fact", m |-> MRec(Pool[nm]), p |-> p])
DoSolve == \E n \in {2, 3}, nb \in {2, 3} :
  /\ UNCHANGED lvars
  /\ last' = [op |-> "solve", st |-> IF fac.k \in {"has"} /\ Len(fac.a) = n /\ nb = n THEN "ok" ELSE "err", m |-> ""]
  /\ hist' = hist \o << [e |-> "solve", dx |-> n, b |-> B(nb)], [e |-> "det"] >>
Next == UNCHANGED svars /\ (DoFact \/ DoSolve)

\* what is factorized always has the locked shape and is not structurally singular
LockFits == fac.k \in {"has", "lost"} => lock # <<>> /\ Len(fac.a) = lock.n /\ Singular(fac.a) = "no"
\* once a first factorization has succeeded the structure never changes again
LockStable == [][(lock # <<>> /\ ~lock.maybe) => (lock' # <<>> /\ lock'.n = lock.n /\ lock'.nnz = lock.nnz /\ lock'.sym = lock.sym)]_vars
\* a refused call that is not a numerical failure changes nothing
RefusalKeeps == [][(last'.op = "fact" /\ last'.st = "err" /\ fac.k = "has" /\ ~SameStruct(Pool[last'.m])) => UNCHANGED lvars]_vars
\* a factorization that succeeded makes its own matrix the one that is solved
LastWins == [][(last'.op = "fact" /\ last'.st = "ok" /\ fac'.k = "has") => fac'.a = Dense(Pool[last'.m])]_vars
DetSolve == LET a == Dense(Pool.a) IN Det(a) = <<2 * 3 + 1, 3>>

View == <<lock, fac, wdet, last, Len(hist)>>
Bound == Len(hist) <= Depth
Emit == (Gen > 0 /\ Len(hist) >= Gen) => PrintT(<<"GEN", ToJson(hist)>>)
GenBound == Len(hist) < Gen
=============================================================================
