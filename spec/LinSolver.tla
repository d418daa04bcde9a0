----------------------------- MODULE LinSolver ------------------------------
(* Life cycle of a sparse direct solver object.                               *)
(*                                                                            *)
(* lock: structure fixed by the first factorization (<<>> before it)          *)
(* fac : what later solves refer to                                           *)
(*       [k |-> "none"]          nothing factorized yet                       *)
(*       [k |-> "has", a |-> A]  the dense matrix last factorized             *)
(*       [k |-> "lost", a |-> A] a later factorization failed: solves are     *)
(*                               refused or still solve A                     *)
(*       [k |-> "wild"]          numerically singular matrix was accepted:    *)
(*                               nothing is promised                          *)
(* wdet: whether the determinant was requested                                *)
EXTENDS Sparse

VARIABLES lock, fac, wdet
lvars == <<lock, fac, wdet>>

Struct(m) == [n |-> m.nrow, nnz |-> Len(m.trip), sym |-> m.sym, pat |-> Positions(m), maybe |-> FALSE, any |-> FALSE]
None == [k |-> "none"]
LInit == lock = <<>> /\ fac = None /\ wdet = FALSE

\* a matrix no ordering can pivot: no transversal of stored positions (checked for n <= 5 only)
RECURSIVE Transversal(_, _, _)
Transversal(p, n, used) ==
  LET i == Cardinality(used) IN
  IF i = n THEN TRUE ELSE \E j \in (0..(n - 1)) \ used : <<i, j>> \in p /\ Transversal(p, n, used \cup {j})
NonZero(a) == {<<i - 1, j - 1>> : i, j \in 1..Len(a)} \cap {q \in (0..(Len(a) - 1)) \X (0..(Len(a) - 1)) : a[q[1] + 1][q[2] + 1] # CZ}

\* exact determinant by expansion along the first row of what is left
RECURSIVE DetR(_, _, _)
DetR(a, i, cols) ==
  IF i > Len(a) THEN <<1, 0>>
  ELSE CSumF(LAMBDA k : LET s == IF k % 2 = 1 THEN 1 ELSE -1
                            z == a[i][cols[k]]
                        IN IF z = CZ THEN CZ
                           ELSE CMul(<<s * z[1], s * z[2]>>, DetR(a, i + 1, SelectSeq(cols, LAMBDA c : c # cols[k]))), Len(cols))
Det(a) == DetR(a, 1, Idx(Len(a)))

Abs1(z) == Abs(z[1]) + Abs(z[2])
Dominant(a) == \A i \in 1..Len(a) :
  2 * Max2(Abs(a[i][i][1]), Abs(a[i][i][2])) > SumF(LAMBDA j : IF j = i THEN Max2(Abs(a[i][i][1]), Abs(a[i][i][2])) ELSE Abs1(a[i][j]), Len(a))

Small(a) == Len(a) <= 5
\* "yes": must be refused, "no": must be accepted, "any": the arithmetic decides
Singular(a) ==
  IF Small(a) THEN IF ~Transversal(NonZero(a), Len(a), {}) THEN "yes" ELSE IF Det(a) = CZ THEN "any" ELSE "no"
  ELSE IF Dominant(a) THEN "no" ELSE "any"

Admissible(m) == m.nrow = m.ncol /\ Len(m.trip) >= 1 /\ ~Triangular(m.sym)
Options(p) == p.given
SameStruct(m) == lock.n = m.nrow /\ m.ncol = m.nrow /\ lock.nnz = Len(m.trip) /\ lock.sym = m.sym

\* allowed outcomes of factorize(m, p): set of [st, lock, fac, wdet]
Out(st, lk, f, d) == [st |-> st, lock |-> lk, fac |-> f, wdet |-> d]
Lose == CASE fac.k = "has" -> [fac EXCEPT !.k = "lost"] [] OTHER -> fac
FactOutcomes(m, p) ==
  LET a == Dense(m)
      s == Singular(a)
      good(d) == Out("ok", Struct(m), [k |-> "has", a |-> a], d)
      fail(lk) == Out("err", lk, Lose, wdet)
      wild(d) == Out("ok", Struct(m), [k |-> "wild"], d)
      judged(d, lk) == CASE s = "no" -> {good(d)} [] s = "yes" -> {fail(lk)} [] OTHER -> {wild(d), fail(lk)}
      first == IF Admissible(m) THEN judged(p.det, [Struct(m) EXCEPT !.maybe = TRUE]) ELSE {Out("err", lock, fac, wdet)}
      next == IF Options(p) \/ ~SameStruct(m) THEN {Out("err", lock, fac, wdet)}
              ELSE IF Positions(m) = lock.pat THEN judged(wdet, lock)
              ELSE judged(wdet, lock) \cup {fail(lock)}
  IN IF lock = <<>> THEN first
     ELSE IF lock.maybe   \* the first factorization failed: the structure may or may not be fixed
     THEN LET lk == IF Admissible(m) /\ ~SameStruct(m) THEN [lock EXCEPT !.any = TRUE] ELSE lock
              refused == IF lock.any THEN {Out("err", lock, fac, wdet)} ELSE {}
          IN refused \cup {IF o.st = "ok" THEN o ELSE [o EXCEPT !.lock = lk] : o \in first \cup next}
     ELSE next

\* x (scaled by S, rounded) solves a x = b
Solves(a, x, b, S) ==
  /\ Len(x) = Len(a)
  /\ \A i \in 1..Len(a) :
       LET r == CSumF(LAMBDA j : CMul(a[i][j], x[j]), Len(a))
           w == 2 + SumF(LAMBDA j : Abs1(a[i][j]), Len(a))
       IN Near(r[1], S * b[i][1], w) /\ Near(r[2], S * b[i][2], w)
=============================================================================
