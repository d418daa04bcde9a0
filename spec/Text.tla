-------------------------------- MODULE Text --------------------------------
(* Text files as sequences of lines of tokens: what a table or matrix reader  *)
(* must return or reject, and what generated text must contain.               *)
EXTENDS Base

----------------------------------------------------------------------------
\* Files.  A token is a number (in quarters), a comment mark or something else.
IsHash(t) == t.k = "hash"
Before(l) == LET h == {k \in 1..Len(l) : IsHash(l[k])} IN
  IF h = {} THEN l ELSE SubSeq(l, 1, (CHOOSE k \in h : \A j \in h : k <= j) - 1)
Rows(lines) == SelectSeq([k \in 1..Len(lines) |-> Before(lines[k])], LAMBDA r : Len(r) > 0)
Even(rows, n) == \A k \in 1..Len(rows) : Len(rows[k]) = n
Numeric(rows) == \A k \in 1..Len(rows) : \A j \in 1..Len(rows[k]) : rows[k][j].k = "num"
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Labels(row) == [j \in 1..Len(row) |-> row[j].s]

\* what reading a table gives: rejected, or the columns by label
TableFails(lines, lab, labels) ==
  LET r == Rows(lines) IN
  Len(r) > 0 /\
  LET h == Labels(r[1])
      d == Tail(r)
  IN IF lab THEN h # labels \/ ~Even(d, Len(h)) \/ ~Numeric(d)
     ELSE ~Distinct(h) \/ ~Even(d, Len(h)) \/ ~Numeric(d)
Column(lines, j) == LET d == Tail(Rows(lines)) IN [k \in 1..Len(d) |-> d[k][j].v]
\* a header without rows may give no columns or empty ones
TableGives(lines, cols) ==
  LET r == Rows(lines) IN
  IF Len(r) = 0 THEN cols = << >>
  ELSE LET h == Labels(r[1]) IN
    /\ \A c \in 1..Len(cols) : \E j \in 1..Len(h) : h[j] = cols[c].l /\ cols[c].v = Column(lines, j)
    /\ Len(r) > 1 => \A j \in 1..Len(h) : \E c \in 1..Len(cols) : cols[c].l = h[j]
MatFails(lines) == LET r == Rows(lines) IN Len(r) > 0 /\ (~Even(r, Len(r[1])) \/ ~Numeric(r))
MatGives(lines) == LET r == Rows(lines) IN [k \in 1..Len(r) |-> [j \in 1..Len(r[k]) |-> r[k][j].v]]

----------------------------------------------------------------------------
\* Numbers m * 10^x written in decimal or scientific notation
NDigits(m) == FoldLeft(LAMBDA n, k : IF Abs(m) >= Pow(10, k) THEN n + 1 ELSE n, 1, Idx(9))
Num(d) == FoldLeft(LAMBDA a, k : a * 10 + k, 0, d)
Up(m, k) == {Abs(m) \div Pow(10, k)} \cup {(Abs(m) \div Pow(10, k)) + 1}
\* the roundings of |m| after k digits are dropped: nearest, both at a tie
Dropped(m, k) == {r \in Up(m, k) : LET u == Pow(10, k)
                                       q == Abs(m) \div u
                                       rest == Abs(m) % u
                                   IN IF r = q THEN 2 * rest <= u ELSE 2 * rest >= u}
\* observed pieces o of m * 10^x with p decimals in scientific notation
SciOk(o, m, x, p) ==
  /\ o.k = "sci" /\ o.nw = 1 /\ o.nf = p /\ o.xd >= 2 /\ (o.xd > 2 => Abs(o.x) >= Pow(10, o.xd - 1))
  /\ o.neg = (m < 0)
  /\ p > 14 \/
     LET n == NDigits(m)
         keep == Min2(p + 1, 9)
         head == Num(SubSeq(o.d, 1, keep))
     IN /\ \A k \in (keep + 1)..(p + 1) : o.d[k] = 0
        /\ IF m = 0 THEN head = 0 /\ o.x = 0
           ELSE IF keep >= n THEN head = Abs(m) * Pow(10, keep - n) /\ o.x = x + n - 1
           ELSE \E r \in Dropped(m, n - keep) :
             IF r = Pow(10, keep) THEN head = Pow(10, keep - 1) /\ o.x = x + n
             ELSE head = r /\ o.x = x + n - 1
\* observed pieces o of m * 10^x (x <= 0) with p decimals in ordinary notation
DecOk(o, m, x, p) ==
  /\ o.k = "dec" /\ o.nf = p
  /\ LET v == Num(o.d) IN
     /\ (v # 0 => o.neg = (m < 0))
     /\ IF x + p >= 0 THEN v = Abs(m) * Pow(10, x + p) ELSE v \in Dropped(m, -(x + p))
Wide(o, w, natural) == o.len = Max2(w, natural)
SciLen(o) == (IF o.neg THEN 1 ELSE 0) + Len(o.d) + (IF o.nf > 0 THEN 1 ELSE 0) + 2 + o.xd
DecLen(o) == (IF o.neg THEN 1 ELSE 0) + Len(o.d) + (IF o.nf > 0 THEN 1 ELSE 0)

\* frame around a drawing of r rows: equal widths, corners and sides
Sides(r) == FoldLeft(LAMBDA s, k : s \o "||", "", Idx(r))
FrameOk(e, r) == Len(e.w) = r + 2 /\ (\A k \in 1..Len(e.w) : e.w[k] = e.w[1]) /\ e.fr = "ab" \o Sides(r) \o "cd"
  /\ Len(e.lines) = r + 2 /\ e.lines[1] = << >> /\ e.lines[r + 2] = << >>

----------------------------------------------------------------------------
\* Dumps as token sequences
Commas(s, n, one(_)) == FoldLeft(LAMBDA acc, k : (IF k = 1 THEN acc ELSE acc \o <<",">>) \o one(k), s, Idx(n))
Nested(m, n, open, close) ==
  Commas(<<open>>, m, LAMBDA i : Commas(<<open>>, n, LAMBDA j : <<"N">>) \o <<close>>) \o <<close>>
\* trailing commas carry no meaning
Plain(t) == LET keep == SelectSeq(Idx(Len(t)), LAMBDA k : ~(t[k] = "," /\ k < Len(t) /\ t[k + 1] = "]")) IN
  [k \in 1..Len(keep) |-> t[keep[k]]]
DumpTokens(lang, name, m, n) ==
  CASE lang = "mathematica" -> <<name, "=">> \o Nested(m, n, "{", "}") \o <<";">>
    [] lang = "numpy" -> <<name, "=", "np.array", "(">> \o Nested(m, n, "[", "]") \o <<",", "dtype", "=", "float", ")">>
    [] lang = "rust" -> <<"const", name, ":", "[", "[", "f64", ";", "N", "]", ";", "N", "]", "=">> \o Nested(m, n, "[", "]") \o <<";">>
    [] OTHER -> <<"const", name, ":", "[", "f64", ";", "N", "]", "=">> \o Commas(<<"[">>, n, LAMBDA j : <<"N">>) \o <<"]", ";">>
DumpDims(lang, m, n) == CASE lang = "rust" -> <<n, m>> [] lang = "rustvec" -> <<n>> [] OTHER -> << >>

----------------------------------------------------------------------------
\* Durations: hours, minutes and a rest shown in its own unit
Rest(s, ns) ==
  CASE s > 0 -> <<[u |-> "s", w |-> s, f |-> ns]>>
    [] ns = 0 -> << >>
    [] ns >= 1000000 -> <<[u |-> "ms", w |-> ns \div 1000000, f |-> (ns % 1000000) * 1000]>>
    [] ns >= 1000 -> <<[u |-> "us", w |-> ns \div 1000, f |-> (ns % 1000) * 1000000]>>
    [] OTHER -> <<[u |-> "ns", w |-> ns, f |-> 0]>>
Parts(t) ==
  IF t.h = 0 /\ t.m = 0 /\ t.s = 0 /\ t.ns = 0 THEN <<[u |-> "ns", w |-> 0, f |-> 0]>>
  ELSE (IF t.h > 0 THEN <<[u |-> "h", w |-> t.h, f |-> 0]>> ELSE << >>)
    \o (IF t.m > 0 THEN <<[u |-> "m", w |-> t.m, f |-> 0]>> ELSE << >>) \o Rest(t.s, t.ns)
PieceOk(o, p, d) ==
  /\ o.u = p.u
  /\ IF d < 0 \/ p.u \in {"h", "m", "ns"} THEN o.w = p.w /\ o.f = p.f
     ELSE /\ o.nd = d
          /\ Abs(o.w - p.w) <= 1
          /\ Abs((o.w - p.w) * 1000000000 + (o.f - p.f)) <= (IF d = 9 THEN 1 ELSE 5 * Pow(10, 8 - d))
DurationOk(o, t, d) == LET p == Parts(t) IN Len(o) = Len(p) /\ \A k \in 1..Len(p) : PieceOk(o[k], p[k], d)

\* Stopwatch histories: what is shown is the time up to the last stop since the last reset
Zero == [h |-> 0, m |-> 0, s |-> 0, ns |-> 0]
WatchOk(out) ==
  LET step(a, o) ==
        CASE o.k = "reset" -> [a EXCEPT !.t = Zero, !.r = 0]
          [] o.k = "wait" -> a
          [] o.k = "show" -> [a EXCEPT !.ok = a.ok /\ DurationOk(o.o, a.t, -1)]
          [] OTHER -> [ok |-> a.ok /\ o.lo <= o.r /\ o.r <= o.hi /\ o.r >= a.r,
                       t |-> IF o.k = "stop" THEN o.t ELSE Zero, r |-> IF o.k = "stop" THEN o.r ELSE 0]
  IN FoldLeft(step, [ok |-> TRUE, t |-> Zero, r |-> 0], out).ok
=============================================================================
