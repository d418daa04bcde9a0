----------------------------- MODULE MC_Sparse ------------------------------
(* Bounded exhaustive model of Sparse, and generator of all short histories.  *)
EXTENDS Sparse, Json
CONSTANTS Dim, MaxLen, Depth, GenDepth
VARIABLE hist     \* stimuli so far
vars == <<coo, csc, csr, out, hist>>

Vals == {<<1, 0>>, <<-2, 1>>}
Alphas == {<<-1, 0>>, <<0, 2>>}
Slots == {0, 1}

Note(r) == hist' = Append(hist, r)

Init == /\ \E s \in Syms : LET x == Mat(Dim, Dim, MaxLen, s, <<>>) IN coo = (0 :> x) @@ (1 :> x)
        /\ csc = <<>> /\ csr = <<>> /\ out = "ok"
        /\ hist = << [cx |-> 1],
                     [e |-> "new", k |-> 0, nrow |-> Dim, ncol |-> Dim, cap |-> MaxLen, sym |-> coo[0].sym],
                     [e |-> "new", k |-> 1, nrow |-> Dim, ncol |-> Dim, cap |-> MaxLen, sym |-> coo[0].sym] >>

Good(k) == ~coo[k].bad
Next ==
  \/ \E k \in Slots, i, j \in 0..Dim, v \in Vals :
       /\ Good(k) /\ (i = Dim => j = 0) /\ (j = Dim => i = 0) /\ (k = 1 => v = <<1, 0>>)
       /\ Put(k, i, j, v) /\ Note([e |-> "put", k |-> k, i |-> i, j |-> j, v |-> v])
  \/ Clear(0) /\ Note([e |-> "clear", k |-> 0])
  \/ \E a \in Alphas : Good(0) /\ Good(1) /\ Add(0, a, 1) /\ Note([e |-> "add", k |-> 0, o |-> 1, alpha |-> a])
  \/ \E a \in Alphas : Good(0) /\ Good(1) /\ Assign(1, a, 0) /\ Note([e |-> "assign", k |-> 1, o |-> 0, alpha |-> a])
  \/ GenDepth < 99 /\ Good(0) /\ coo[0].trip # <<>> /\ MakeCsc(0, 0) /\ Note([e |-> "csc", k |-> 0, o |-> 0])
  \/ GenDepth < 99 /\ Good(1) /\ coo[1].trip # <<>> /\ MakeCsr(0, 1) /\ Note([e |-> "csr", k |-> 0, o |-> 1])

-----------------------------------------------------------------------------
(* Properties of the model *)
\* products computed entry by entry equal products with the dense form
EntryMatVec(x, alpha, u) ==
  FoldLeft(LAMBDA a, t :
      LET b == [a EXCEPT ![t[1] + 1] = CAdd(@, CMul(alpha, CMul(t[3], u[t[2] + 1])))]
      IN IF Triangular(x.sym) /\ t[1] # t[2] THEN [b EXCEPT ![t[2] + 1] = CAdd(@, CMul(alpha, CMul(t[3], u[t[1] + 1])))] ELSE b,
    [i \in 1..x.nrow |-> CZ], x.trip)
Us == {<<<<1, 0>>, <<2, 1>>, <<-1, 3>>>>}
ProductsAgree == \A k \in Slots, u \in Us : EntryMatVec(coo[k], <<2, 1>>, u) = MatVec(Dense(coo[k]), <<2, 1>>, u)

TriangleIsSymmetric == \A k \in Slots : Triangular(coo[k].sym) =>
  \A i, j \in 1..Dim : Dense(coo[k])[i][j] = Dense(coo[k])[j][i]
StoredInTriangle == \A k \in Slots : \A p \in Positions(coo[k]) :
  (coo[k].sym = "lower" => p[2] <= p[1]) /\ (coo[k].sym = "upper" => p[2] >= p[1])
Bounded == \A k \in Slots : Len(coo[k].trip) <= coo[k].cap

\* the canonical compressed form (constructive) is a correct compressed form, for both orientations,
\* and transposing the roles converts one into the other
Stored(x, p) == CSumF(LAMBDA k : IF x.trip[k][1] = p[1] /\ x.trip[k][2] = p[2] THEN x.trip[k][3] ELSE CZ, Len(x.trip))
InnerSorted(x, q, byCol) ==
  LET ps == {p \in Positions(x) : Outer(p, byCol) = q} IN SetToSortSeq({Inner(p, byCol) : p \in ps}, <)
Compress(x, byCol) ==
  LET no == IF byCol THEN x.ncol ELSE x.nrow
      lists == [q \in 1..no |-> InnerSorted(x, q - 1, byCol)]
      idx == FoldLeft(LAMBDA a, q : a \o lists[q], <<>>, Idx(no))
      ptr == [q \in 1..(no + 1) |-> SumF(LAMBDA r : Len(lists[r]), q - 1)]
      at == FoldLeft(LAMBDA a, q : a \o [p \in 1..Len(lists[q]) |-> q - 1], <<>>, Idx(no))
  IN [nrow |-> x.nrow, ncol |-> x.ncol, sym |-> x.sym, nnz |-> Len(idx), ptr |-> ptr, idx |-> idx,
      val |-> [p \in 1..Len(idx) |-> Stored(x, IF byCol THEN <<idx[p], at[p]>> ELSE <<at[p], idx[p]>>)],
      dense |-> Dense(x)]
CompressionExists == \A k \in Slots : coo[k].trip # <<>> =>
  CompressedOf(coo[k], Compress(coo[k], TRUE), TRUE, TRUE) /\ CompressedOf(coo[k], Compress(coo[k], FALSE), FALSE, TRUE)
\* a compressed form with one value changed is not accepted (the acceptance predicate is not vacuous)
CorruptRejected == \A k \in Slots : coo[k].trip # <<>> =>
  LET c == Compress(coo[k], TRUE) IN ~CompressedOf(coo[k], [c EXCEPT !.val[1] = CAdd(@, <<1, 0>>)], TRUE, TRUE)

\* accumulation is linear in what the matrices mean; a refusal changes nothing
MatSum(a, alpha, b) == [i \in 1..Dim |-> [j \in 1..Dim |-> CAdd(a[i][j], CMul(alpha, b[i][j]))]]
LastOp == hist'[Len(hist')]
StepMeaning ==
  /\ (LastOp.e = "add" /\ out' = "ok") => Dense(coo'[0]) = MatSum(Dense(coo[0]), LastOp.alpha, Dense(coo[1]))
  /\ (LastOp.e = "assign" /\ out' = "ok") => Dense(coo'[1]) = MatSum(CZeros(Dim, Dim), LastOp.alpha, Dense(coo[0]))
  /\ (LastOp.e = "put" /\ out' = "err") => coo' = coo
  /\ LastOp.e = "clear" => Dense(coo'[0]) = CZeros(Dim, Dim)
StepProp == [][StepMeaning]_vars

View == <<coo, csc, csr, out>>
DepthOk == Len(hist) <= Depth + 3
Emit == Len(hist) = GenDepth + 3 =>
  PrintT(<<"GEN", ToJson(hist \o << [e |-> "show", k |-> 0], [e |-> "show", k |-> 1],
      [e |-> "mul", k |-> 0, alpha |-> <<2, 1>>, u |-> [i \in 1..Dim |-> <<i, 1 - i>>], v |-> [i \in 1..Dim |-> <<5, 5>>]],
      [e |-> "tmul", k |-> 1, alpha |-> <<1, 1>>, u |-> [i \in 1..Dim |-> <<i, 2 * i>>], v |-> [i \in 1..Dim |-> <<5, 5>>]],
      [e |-> "csc", k |-> 1, o |-> 0], [e |-> "csr_of_csc", k |-> 1, o |-> 1], [e |-> "csr", k |-> 2, o |-> 0],
      [e |-> "csc_of_csr", k |-> 2, o |-> 2] >>)>>)
GenBound == Len(hist) < GenDepth + 3
=============================================================================
