---------------------------- MODULE MC_MatMarket ----------------------------
(* Every small matrix written, then every single edit of the file, then read. *)
EXTENDS MatMarket, Json
CONSTANTS Gen
VARIABLES mat, hist, edited
vars == <<mat, disk, hist, edited, svars>>

Vals == {<<0, 0>>, <<1, 0>>, <<-2, 3>>}
Pos == << <<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>> >>
\* the file the reference writer produces
File(x, cx) ==
  LET keep == IF x.sym = "no" THEN Kept(x, 0) ELSE {Lower(q) : q \in Kept(x, 0)}
      qs == SetToSortSeq(keep, LAMBDA a, b : a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1]))
      d == Dense(x)
      ln(q) == LET z == d[q[1] + 1][q[2] + 1] IN [k |-> "num", v |-> IF cx THEN <<q[1] + 1, q[2] + 1, z[1], z[2]>> ELSE <<q[1] + 1, q[2] + 1, z[1]>>]
  IN << [k |-> "head", w |-> <<"%%MatrixMarket", "matrix", "coordinate", IF cx THEN "complex" ELSE "real", IF x.sym = "no" THEN "general" ELSE "symmetric">>],
        [k |-> "num", v |-> <<x.nrow, x.ncol, Len(qs)>>] >> \o [k \in 1..Len(qs) |-> ln(qs[k])]

Mats == {x \in [nrow : {2}, ncol : {2}, sym : Syms, trip : {[k \in 1..4 |-> <<Pos[k][1], Pos[k][2], vs[k]>>] : vs \in [1..4 -> Vals]}] :
           x.sym = "full" => x.trip[2][3] = x.trip[3][3]}
Stored1(x) == Mat(2, 2, 9, x.sym, SelectSeq(x.trip, LAMBDA t : (x.sym = "lower" => t[2] <= t[1]) /\ (x.sym = "upper" => t[2] >= t[1])))

Handlings == {"lower", "upper", "full"}
MRec(m) == [nrow |-> m.nrow, ncol |-> m.ncol, sym |-> m.sym, trip |-> m.trip]

Init ==
  /\ SInit
  /\ mat \in {Stored1(x) : x \in Mats}
  /\ disk = [a |-> File(mat, TRUE)]
  /\ hist = <<[cx |-> 1, den |-> 1], [e |-> "mmwrite", f |-> "a", m |-> MRec(mat), vis |-> 0, tol |-> 0]>>
  /\ edited = "no"

Junk == [k |-> "junk"]
Com == [k |-> "com"]
Lines == {Junk, Com, [k |-> "blank"], [k |-> "num", v |-> <<2, 1, 5, -1>>], [k |-> "num", v |-> <<1, 3, 5, -1>>], [k |-> "num", v |-> <<2, 2, 9>>],
          [k |-> "head", w |-> <<"%%MatrixMarket", "matrix", "array", "complex", "general">>]}
DoEdit == /\ edited = "no"
          /\ \E op \in {"del", "ins", "set"}, at \in 1..Len(disk.a), ln \in Lines :
               /\ (op = "del" => ln = Junk)
               /\ disk' = [a |-> Edit(disk.a, op, at, ln)]
               /\ hist' = Append(hist, [e |-> "mmedit", f |-> "a", op |-> op, at |-> at, ln |-> ln])
               /\ edited' = IF op = "ins" /\ ln.k \in {"com", "blank"} /\ at > 1 THEN "harmless" ELSE "yes"
               /\ UNCHANGED mat
Next == UNCHANGED svars /\ DoEdit

Same(r, x) == r.st = "ok" /\ Dense(r.x) = Filter(Dense(x), 0)
\* what was written is what is read, under every handling; comments and blank lines do not matter
RoundTrip == (edited \in {"no", "harmless"} /\ Kept(mat, 0) # {}) => \A h \in Handlings : Same(ReadResult(disk.a, h), mat)
WriterCorrect == edited = "no" => Written(mat, TRUE, 0, disk.a)
\* whatever the file, accepted reads have exactly the stated number of entries
CountsHold == \A h \in Handlings : LET r == ReadResult(disk.a, h) IN
  r.st = "ok" => \E k \in 1..Len(disk.a) : disk.a[k].k = "num" /\ Len(disk.a[k].v) = 3 /\ disk.a[k].v[3] = Len(SelectSeq(disk.a, LAMBDA x : x.k = "num")) - 1
\* removing any line of a written file, or inserting junk, is noticed
DropNoticed == (edited = "yes" /\ LET o == hist[Len(hist)] IN o.op = "del" \/ (o.op = "ins" /\ o.ln.k = "junk")) =>
   \A h \in Handlings : ReadResult(disk.a, h).st = "reject"
Emit == (Gen > 0 /\ edited # "no") =>
   PrintT(<<"GEN", ToJson(hist \o << [e |-> "mmread", f |-> "a", h |-> "lower", herm |-> 0], [e |-> "mmread", f |-> "a", h |-> "full", herm |-> 0],
                                    [e |-> "mmread", f |-> "a", h |-> "upper", herm |-> 0] >>)>>)
=============================================================================
