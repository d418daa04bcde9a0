------------------------------- MODULE MC_Text ------------------------------
(* A reader working token by token agrees with the definition of what a file  *)
(* means; durations and rounded decimals keep their value.                    *)
EXTENDS Text
CONSTANTS N
VARIABLES file, head, body, row, skip, bad, lab
vars == <<file, head, body, row, skip, bad, lab>>
Tok == {[k |-> "num", v |-> 1, s |-> "1"], [k |-> "num", v |-> 2, s |-> "2"], [k |-> "bad", v |-> 0, s |-> "a"], [k |-> "hash", v |-> 0, s |-> "#"]}
LabSet == {<< >>, <<"a">>, <<"1", "a">>}
Init == file = << << >> >> /\ head = << >> /\ body = << >> /\ row = << >> /\ skip = FALSE /\ bad = FALSE /\ lab \in LabSet
Given == lab # << >>
Put(t) ==
  /\ file' = [file EXCEPT ![Len(file)] = Append(@, t)]
  /\ IF skip THEN UNCHANGED <<row, skip, bad>>
     ELSE IF IsHash(t) THEN skip' = TRUE /\ UNCHANGED <<row, bad>>
     ELSE /\ row' = Append(row, t)
          /\ skip' = FALSE
          /\ bad' = IF head = << >> THEN (bad \/ (IF Given THEN Len(row) >= Len(lab) \/ (Len(row) < Len(lab) /\ lab[Len(row) + 1] # t.s)
                                                  ELSE \E k \in 1..Len(row) : row[k].s = t.s))
                    ELSE (bad \/ Len(row) >= Len(head) \/ t.k # "num")
  /\ UNCHANGED <<head, body, lab>>
Short == row # << >> /\ (IF head = << >> THEN Given /\ Len(row) # Len(lab) ELSE Len(row) # Len(head))
Feed ==
  /\ Len(file) < N
  /\ file' = Append(file, << >>)
  /\ IF row = << >> THEN UNCHANGED <<head, body>>
     ELSE IF head = << >> THEN head' = row /\ body' = body
     ELSE head' = head /\ body' = Append(body, row)
  /\ bad' = (bad \/ Short)
  /\ row' = << >> /\ skip' = FALSE /\ UNCHANGED lab
Next == Feed \/ (Len(file[Len(file)]) < 3 /\ \E t \in Tok : Put(t))
\* the reader's verdict at any moment, as if the file ended there
AllHead == IF head = << >> THEN row ELSE head
AllBody == IF head = << >> \/ row = << >> THEN body ELSE Append(body, row)
Verdict == (bad \/ Short) <=> TableFails(file, Given, lab)
Content == ~(bad \/ Short) => LET r == Rows(file) IN (IF AllHead = << >> THEN r = << >> ELSE r = <<AllHead>> \o AllBody)
  /\ (AllBody # << >> => TableGives(file, [j \in 1..Len(AllHead) |-> [l |-> AllHead[j].s, v |-> [k \in 1..Len(AllBody) |-> AllBody[k][j].v]]]))
\* a file accepted as a matrix has rows of one length
Square == ~MatFails(file) => LET m == MatGives(file) IN m = << >> \/ \A k \in 1..Len(m) : Len(m[k]) = Len(m[1])
\* comments and blank lines do not matter
Silent == LET f2 == SelectSeq(file, LAMBDA x : Len(Before(x)) > 0) IN TableFails(f2, Given, lab) = TableFails(file, Given, lab) /\ Rows(f2) = Rows(file)

ASSUME Roundings == \A m \in 0..300 : \A k \in 0..2 : LET d == Dropped(m, k) IN d # {} /\ Cardinality(d) <= 2 /\ \A r \in d : 2 * Abs(r * Pow(10, k) - m) <= Pow(10, k)
Sum(p) == FoldLeft(LAMBDA a, q : a + CASE q.u = "h" -> q.w * 3600 [] q.u = "m" -> q.w * 60 [] q.u = "s" -> q.w [] OTHER -> 0, 0, p)
ASSUME Durations == \A h \in {0, 1, 9}, m \in {0, 1, 59}, s \in {0, 1, 59}, ns \in {0, 1, 999, 1000, 999999, 1000000, 999999999} :
  LET p == Parts([h |-> h, m |-> m, s |-> s, ns |-> ns]) IN
  Len(p) >= 1 /\ Sum(p) = 3600 * h + 60 * m + s /\ DurationOk([k \in 1..Len(p) |-> [u |-> p[k].u, w |-> p[k].w, f |-> p[k].f, nd |-> 0]], [h |-> h, m |-> m, s |-> s, ns |-> ns], -1)
=============================================================================
