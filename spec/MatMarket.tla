----------------------------- MODULE MatMarket ------------------------------
(* Sparse-matrix text files. A file is a sequence of lines                    *)
(*   [k |-> "head", w |-> words]   [k |-> "com"]  [k |-> "blank"]             *)
(*   [k |-> "num", v |-> numbers]  [k |-> "junk"]                             *)
(* Reading is a small state machine over the lines; writing is the relation   *)
(* Written. Values are integers (the drivers scale them by a denominator).    *)
EXTENDS Sparse

VARIABLES disk    \* file name -> lines (or vis file lines)
dvars == <<disk>>

HeadOk(ln) ==
  /\ ln.k = "head" /\ Len(ln.w) >= 5
  /\ ln.w[1] = "%%MatrixMarket" /\ ln.w[2] = "matrix" /\ ln.w[3] = "coordinate"
  /\ ln.w[4] \in {"real", "complex"}
  /\ ln.w[5] \in {"general", "symmetric", "Hermitian"}
  /\ (ln.w[5] = "Hermitian" => ln.w[4] = "complex")

Fail(r) == [r EXCEPT !.stage = "bad"]
P0 == [stage |-> "head", cx |-> FALSE, symm |-> "general", m |-> 0, n |-> 0, nnz |-> 0, trip |-> <<>>]

\* comments start with a percent sign: a header line after the first one is a comment
Ignored(ln) == ln.k \in {"com", "blank", "head"}

ParseLine(r, ln) ==
  CASE r.stage = "bad" -> r
    [] r.stage = "head" -> IF HeadOk(ln) THEN [r EXCEPT !.stage = "dims", !.cx = (ln.w[4] = "complex"), !.symm = ln.w[5]] ELSE Fail(r)
    [] r.stage = "dims" ->
         IF Ignored(ln) THEN r
         ELSE IF ln.k = "num" /\ Len(ln.v) = 3 /\ ln.v[1] >= 1 /\ ln.v[2] >= 1 /\ ln.v[3] >= 1
                 /\ (r.symm # "general" => ln.v[1] = ln.v[2])
         THEN [r EXCEPT !.stage = "data", !.m = ln.v[1], !.n = ln.v[2], !.nnz = ln.v[3]] ELSE Fail(r)
    [] r.stage = "data" ->
         IF Ignored(ln) THEN r
         ELSE IF ln.k = "num" /\ Len(ln.v) = (IF r.cx THEN 4 ELSE 3) /\ Len(r.trip) < r.nnz
                 /\ ln.v[1] \in 1..r.m /\ ln.v[2] \in 1..r.n
         THEN [r EXCEPT !.trip = Append(@, <<ln.v[1] - 1, ln.v[2] - 1, <<ln.v[3], IF r.cx THEN ln.v[4] ELSE 0>>>>)]
         ELSE Fail(r)
Parse(lines) == FoldLeft(ParseLine, P0, lines)
Complete(r) == r.stage = "data" /\ Len(r.trip) = r.nnz

Swap(t) == <<t[2], t[1], t[3]>>
Conj(t) == <<t[2], t[1], <<t[3][1], -t[3][2]>>>>
Off(t) == t[1] # t[2]
MirrorWith(ts, f(_)) == FoldLeft(LAMBDA a, t : IF Off(t) THEN a \o <<t, f(t)>> ELSE Append(a, t), <<>>, ts)

\* what reading must give: "reject" or a matrix; h = requested handling of a symmetric file
ReadResult(lines, h) ==
  LET r == Parse(lines) IN
  IF ~Complete(r) THEN [st |-> "reject"]
  ELSE CASE r.symm = "general" -> [st |-> "ok", cx |-> r.cx, x |-> Mat(r.m, r.n, 0, "no", r.trip)]
         [] r.symm = "Hermitian" -> [st |-> "ok", cx |-> r.cx, x |-> Mat(r.m, r.n, 0, "no", MirrorWith(r.trip, Conj))]
         [] r.symm = "symmetric" ->
              IF h = "full" THEN [st |-> "ok", cx |-> r.cx, x |-> Mat(r.m, r.n, 0, "full", MirrorWith(r.trip, Swap))]
              ELSE IF \E k \in 1..Len(r.trip) : r.trip[k][2] > r.trip[k][1] THEN [st |-> "reject"]   \* not in the lower triangle
              ELSE IF h = "lower" THEN [st |-> "ok", cx |-> r.cx, x |-> Mat(r.m, r.n, 0, "lower", r.trip)]
              ELSE [st |-> "ok", cx |-> r.cx, x |-> Mat(r.m, r.n, 0, "upper", [k \in 1..Len(r.trip) |-> Swap(r.trip[k])])]

-----------------------------------------------------------------------------
\* entries above the threshold, of the dense meaning
Big(z, tol) == Abs(z[1]) > tol \/ Abs(z[2]) > tol
Filter(a, tol) == [i \in 1..Len(a) |-> [j \in 1..Len(a[i]) |-> IF Big(a[i][j], tol) THEN a[i][j] ELSE CZ]]
\* positions stored in the matrix and large enough, once each
Kept(x, tol) == {q \in Positions(x) : Big(Dense(x)[q[1] + 1][q[2] + 1], tol)}
Lower(q) == IF q[1] >= q[2] THEN q ELSE <<q[2], q[1]>>

\* lines is a correct file for matrix x (summed, entries not above tol dropped)
Written(x, cx, tol, lines) ==
  LET want == {Lower(q) : q \in Kept(x, tol)}
      keep == IF x.sym = "no" THEN Kept(x, tol) ELSE want
      nd == Len(lines) - 2
      data == {<<lines[k].v[1] - 1, lines[k].v[2] - 1>> : k \in 3..Len(lines)}
      val(ln) == <<ln.v[3], IF cx THEN ln.v[4] ELSE 0>>
  IN /\ Len(lines) >= 2
     /\ lines[1].k = "head"
     /\ lines[1].w = <<"%%MatrixMarket", "matrix", "coordinate", IF cx THEN "complex" ELSE "real", IF x.sym = "no" THEN "general" ELSE "symmetric">>
     /\ lines[2].k = "num" /\ lines[2].v = <<x.nrow, x.ncol, nd>>
     /\ \A k \in 3..Len(lines) : lines[k].k = "num" /\ Len(lines[k].v) = (IF cx THEN 4 ELSE 3)
     /\ Cardinality(data) = nd /\ data = keep
     /\ \A k \in 3..Len(lines) : val(lines[k]) = Dense(x)[lines[k].v[1]][lines[k].v[2]]

\* visualisation file: dimensions, then every entry of the full matrix with zero-based positions; complex values by modulus (squared here)
VisWritten(x, cx, tol, lines) ==
  LET d == Dense(x)
      pos == IF Triangular(x.sym) THEN Kept(x, tol) \cup {<<q[2], q[1]>> : q \in Kept(x, tol)} ELSE Kept(x, tol)
      nd == Len(lines) - 1
      at(ln) == <<ln.v[1], ln.v[2]>>
      val(q) == LET z == d[q[1] + 1][q[2] + 1] IN IF cx THEN z[1] * z[1] + z[2] * z[2] ELSE z[1]
  IN /\ Len(lines) >= 1
     /\ lines[1].k = "num" /\ lines[1].v = <<x.nrow, x.ncol, nd>>
     /\ \A k \in 2..Len(lines) : lines[k].k = "num" /\ Len(lines[k].v) = 3
     /\ {at(lines[k]) : k \in 2..Len(lines)} = pos /\ Cardinality(pos) = nd
     /\ \A k \in 2..Len(lines) : lines[k].v[3] = val(at(lines[k]))

-----------------------------------------------------------------------------
\* edits of a file
Edit(lines, op, at, ln) ==
  CASE op = "del" -> SubSeq(lines, 1, at - 1) \o SubSeq(lines, at + 1, Len(lines))
    [] op = "ins" -> SubSeq(lines, 1, at - 1) \o <<ln>> \o SubSeq(lines, at, Len(lines))
    [] op = "set" -> [lines EXCEPT ![at] = ln]
=============================================================================
