------------------------------- MODULE Sparse -------------------------------
(* Sparse matrices: a pool of triplet (COO) matrices with their building      *)
(* operations, and the compressed (CSC / CSR) matrices derived from them.     *)
(*                                                                            *)
(* A triplet slot holds the list of entries (concrete layer). What it means   *)
(* is given by Dense: the sum of the entries at each position, mirrored when  *)
(* one triangle is stored. All observable results are functions of Dense.     *)
EXTENDS Base

VARIABLES coo,   \* slot -> triplet matrix
          csc,   \* slot -> compressed-column matrix (kept as what it denotes)
          csr,   \* slot -> compressed-row matrix
          out    \* response required from the last operation
svars == <<coo, csc, csr, out>>

Syms == {"no", "full", "lower", "upper"}
Triangular(s) == s \in {"lower", "upper"}

-----------------------------------------------------------------------------
(* Meaning of a triplet matrix *)
Mat(m, n, cap, sym, trip) == [nrow |-> m, ncol |-> n, cap |-> cap, sym |-> sym, trip |-> trip, bad |-> FALSE]

AddAt(a, i, j, v) == [a EXCEPT ![i + 1][j + 1] = CAdd(@, v)]

\* dense form: fold of the entries, each mirrored if off-diagonal and stored as a triangle
Dense(x) ==
  FoldLeft(LAMBDA a, t :
             LET b == AddAt(a, t[1], t[2], t[3])
             IN IF Triangular(x.sym) /\ t[1] # t[2] THEN AddAt(b, t[2], t[1], t[3]) ELSE b,
           CZeros(x.nrow, x.ncol), x.trip)

Positions(x) == {<<x.trip[k][1], x.trip[k][2]>> : k \in 1..Len(x.trip)}
OffDiag(x) == Cardinality({k \in 1..Len(x.trip) : x.trip[k][1] # x.trip[k][2]})
ActualNnz(x) == Len(x.trip) + (IF Triangular(x.sym) THEN OffDiag(x) ELSE 0)

\* alpha * A * u  and  alpha * A^T * u  for a dense A
MatVec(a, alpha, u) == [i \in 1..Len(a) |-> CMul(alpha, CSumF(LAMBDA j : CMul(a[i][j], u[j]), Len(a[i])))]
MatTVec(a, alpha, u) ==
  [j \in 1..Len(a[1]) |-> CMul(alpha, CSumF(LAMBDA i : CMul(a[i][j], u[i]), Len(a)))]

-----------------------------------------------------------------------------
(* Building operations: each yields <<status, new slot value>> *)
PutAllowed(x, i, j) ==
  /\ i >= 0 /\ i < x.nrow /\ j >= 0 /\ j < x.ncol
  /\ Len(x.trip) < x.cap
  /\ x.sym = "lower" => j <= i
  /\ x.sym = "upper" => j >= i

PutRes(x, i, j, v) ==
  IF PutAllowed(x, i, j) THEN <<"ok", [x EXCEPT !.trip = Append(@, <<i, j, v>>)]>>
                         ELSE <<"err", x>>

\* appends a list of entries; running out of capacity half way is an error whose content is unspecified
AppendAll(x, ts) ==
  IF Len(x.trip) + Len(ts) <= x.cap THEN <<"ok", [x EXCEPT !.trip = @ \o ts]>>
                                    ELSE <<"err", [x EXCEPT !.bad = TRUE]>>

Scaled(alpha, trip) == [k \in 1..Len(trip) |-> <<trip[k][1], trip[k][2], CMul(alpha, trip[k][3])>>]

AssignRes(x, alpha, o) ==
  IF o.nrow = x.nrow /\ o.ncol = x.ncol /\ o.sym = x.sym
  THEN AppendAll([x EXCEPT !.trip = <<>>, !.bad = FALSE], Scaled(alpha, o.trip))
  ELSE <<"err", x>>

AddRes(x, alpha, o) ==
  IF o.nrow <= x.nrow /\ o.ncol <= x.ncol /\ o.sym = x.sym
  THEN AppendAll(x, Scaled(alpha, o.trip))
  ELSE <<"err", x>>

\* attaches [. B^T; B .] below/right of the leading ncol(B) x ncol(B) part
LagrangeEntries(sym, b) ==
  LET low(t) == <<b.ncol + t[1], t[2], t[3]>>
      upp(t) == <<t[2], b.ncol + t[1], t[3]>>
  IN CASE sym = "lower" -> [k \in 1..Len(b.trip) |-> low(b.trip[k])]
       [] sym = "upper" -> [k \in 1..Len(b.trip) |-> upp(b.trip[k])]
       [] OTHER -> FoldLeft(LAMBDA a, t : a \o <<low(t), upp(t)>>, <<>>, b.trip)
LagrangeRes(x, b) ==
  IF b.sym = "no" /\ b.ncol + b.nrow <= x.nrow /\ b.ncol + b.nrow <= x.ncol
  THEN AppendAll(x, LagrangeEntries(x.sym, b))
  ELSE <<"err", x>>

NewAllowed(m, n, cap, sym) == m >= 1 /\ n >= 1 /\ cap >= 1 /\ (sym # "no" => m = n)

FromAllowed(m, n, ii, jj, vv, sym) ==
  /\ m >= 1 /\ n >= 1 /\ (sym # "no" => m = n)
  /\ Len(ii) >= 1 /\ Len(jj) = Len(ii) /\ Len(vv) = Len(ii)
  /\ \A k \in 1..Len(ii) :
       /\ ii[k] \in 0..(m - 1) /\ jj[k] \in 0..(n - 1)
       /\ sym = "lower" => jj[k] <= ii[k]
       /\ sym = "upper" => jj[k] >= ii[k]

-----------------------------------------------------------------------------
(* Compressed matrices *)
\* canonical compressed arrays of the stored positions (outer = columns for CSC, rows for CSR)
Outer(p, byCol) == IF byCol THEN p[2] ELSE p[1]
Inner(p, byCol) == IF byCol THEN p[1] ELSE p[2]

\* storage well formed: pointers from 0, non-decreasing, up to nnz; indices inside and strictly increasing per outer
WellFormed(ptr, idx, nouter, ninner, strict) ==
  /\ Len(ptr) = nouter + 1
  /\ ptr[1] = 0
  /\ \A q \in 1..nouter : ptr[q] <= ptr[q + 1]
  /\ ptr[nouter + 1] = Len(idx)
  /\ \A k \in 1..Len(idx) : idx[k] \in 0..(ninner - 1)
  /\ \A q \in 1..nouter : \A p \in (ptr[q] + 2)..ptr[q + 1] : idx[p - 1] <= idx[p] /\ (strict => idx[p - 1] # idx[p])

\* entries <<i, j, v>> held by compressed arrays
Entries(ptr, idx, val, nouter, byCol) ==
  FoldLeft(LAMBDA a, q :
      a \o [p \in 1..(ptr[q + 1] - ptr[q]) |->
              LET s == ptr[q] + p IN IF byCol THEN <<idx[s], q - 1, val[s]>> ELSE <<q - 1, idx[s], val[s]>>],
    <<>>, Idx(nouter))

\* an observed compressed matrix is a correct form of the triplet matrix x
CompressedOf(x, o, byCol, strict) ==
  /\ o.nrow = x.nrow /\ o.ncol = x.ncol /\ o.sym = x.sym
  /\ o.nnz = Len(o.idx) /\ Len(o.val) = Len(o.idx)
  /\ LET no == IF byCol THEN x.ncol ELSE x.nrow
         ni == IF byCol THEN x.nrow ELSE x.ncol
     IN /\ WellFormed(o.ptr, o.idx, no, ni, strict)
        /\ LET es == Entries(o.ptr, o.idx, o.val, no, byCol)
               y == [x EXCEPT !.trip = es]
           IN /\ Dense(y) = Dense(x)
              /\ Positions(y) \subseteq Positions(x)
  /\ o.dense = Dense(x)

RawAllowed(o, byCol) ==
  LET no == IF byCol THEN o.ncol ELSE o.nrow
      ni == IF byCol THEN o.nrow ELSE o.ncol
      nz == o.ptr[Len(o.ptr)]
  IN /\ Len(o.ptr) = no + 1
     /\ nz >= 1 /\ Len(o.idx) >= nz /\ Len(o.val) >= nz
     /\ o.sym # "no" => o.nrow = o.ncol
     /\ \A q \in 1..no : o.ptr[q] >= 0 /\ o.ptr[q] <= o.ptr[q + 1]
     /\ \A q \in 1..no : \A p \in (o.ptr[q] + 1)..o.ptr[q + 1] :
          /\ o.idx[p] \in 0..(ni - 1)
          /\ p > o.ptr[q] + 1 => o.idx[p - 1] <= o.idx[p]

-----------------------------------------------------------------------------
(* Actions *)
Set(f, k, v) == (k :> v) @@ f

Res(k, r) == coo' = Set(coo, k, r[2]) /\ out' = r[1] /\ UNCHANGED <<csc, csr>>

New(k, m, n, cap, sym) ==
  /\ out' = IF NewAllowed(m, n, cap, sym) THEN "ok" ELSE "err"
  /\ coo' = IF NewAllowed(m, n, cap, sym) THEN Set(coo, k, Mat(m, n, cap, sym, <<>>)) ELSE coo
  /\ UNCHANGED <<csc, csr>>

From(k, m, n, ii, jj, vv, sym) ==
  LET ok == FromAllowed(m, n, ii, jj, vv, sym)
  IN /\ out' = IF ok THEN "ok" ELSE "err"
     /\ coo' = IF ok THEN Set(coo, k, Mat(m, n, Len(ii), sym, [q \in 1..Len(ii) |-> <<ii[q], jj[q], vv[q]>>])) ELSE coo
     /\ UNCHANGED <<csc, csr>>

Put(k, i, j, v)    == Res(k, PutRes(coo[k], i, j, v))
Clear(k)           == Res(k, <<"ok", [coo[k] EXCEPT !.trip = <<>>, !.bad = FALSE]>>)
Assign(k, alpha, o) == Res(k, AssignRes(coo[k], alpha, coo[o]))
Add(k, alpha, o)    == Res(k, AddRes(coo[k], alpha, coo[o]))
Lagrange(k, o)     == Res(k, LagrangeRes(coo[k], coo[o]))
ScaleVals(k, alpha) == Res(k, <<"ok", [coo[k] EXCEPT !.trip = Scaled(alpha, @)]>>)

\* compressed slots remember the triplet matrix they denote (abstractly)
MakeCsc(k, o) == /\ csc' = IF coo[o].trip = <<>> THEN csc ELSE Set(csc, k, coo[o])
                 /\ out' = IF coo[o].trip = <<>> THEN "err" ELSE "ok"
                 /\ UNCHANGED <<coo, csr>>
MakeCsr(k, o) == /\ csr' = IF coo[o].trip = <<>> THEN csr ELSE Set(csr, k, coo[o])
                 /\ out' = IF coo[o].trip = <<>> THEN "err" ELSE "ok"
                 /\ UNCHANGED <<coo, csc>>
CscOfCsr(k, o) == csc' = Set(csc, k, csr[o]) /\ out' = "ok" /\ UNCHANGED <<coo, csr>>
CsrOfCsc(k, o) == csr' = Set(csr, k, csc[o]) /\ out' = "ok" /\ UNCHANGED <<coo, csc>>
Refreshable(c, x) == c.nrow = x.nrow /\ c.ncol = x.ncol /\ c.sym = x.sym

SInit == coo = <<>> /\ csc = <<>> /\ csr = <<>> /\ out = "ok"
=============================================================================
