------------------------------- MODULE Stiff --------------------------------
(* Stiffness detection of the explicit methods that offer it.                 *)
(* Every accepted step gives a signal: the product of the stepsize and the    *)
(* estimated spectral radius is above the stability border of the method or   *)
(* not.  Signals are counted after the first accepted steps have been         *)
(* skipped; so many positive ones, not interrupted by so many consecutive     *)
(* negative ones, are a detection, which carries the start of the first of    *)
(* them and either ends the run with an error or is only recorded.            *)
EXTENDS Integers, Sequences, SequencesExt

None == -1
S0 == [k |-> 0, yes |-> 0, no |-> 0, first |-> None, det |-> FALSE, log |-> <<>>]
(* c: sr steps to ratify, si steps to ignore, ss steps to skip; k counts the accepted steps; first is a step number *)
Signal(c, s, hot) ==
  LET k == s.k + 1
  IN IF k <= c.ss THEN [s EXCEPT !.k = k, !.det = FALSE]
     ELSE IF hot
     THEN LET y == s.yes + 1
              f == IF s.first = None THEN k ELSE s.first
          IN [k |-> k, yes |-> y, no |-> 0, first |-> f, det |-> y = c.sr,
              log |-> IF y = c.sr THEN Append(s.log, <<k, f>>) ELSE s.log]
     ELSE LET n == s.no + 1
              r == n = c.si
          IN [k |-> k, yes |-> IF r THEN 0 ELSE s.yes, no |-> n, first |-> IF r THEN None ELSE s.first,
              det |-> FALSE, log |-> s.log]
Detect(c, word) == FoldLeft(LAMBDA s, w : Signal(c, s, w), S0, word)

(* The same without counters: position j is forgotten at i when i ends the     *)
(* first si negative signals in a row after a positive one or the start.       *)
Count(word, a, b) == FoldLeft(LAMBDA n, i : IF i >= a /\ i <= b /\ word[i] THEN n + 1 ELSE n, 0, [i \in 1..Len(word) |-> i])
Forgets(c, word, i) ==
  /\ i - c.si >= c.ss
  /\ \A j \in (i - c.si + 1)..i : ~word[j]
  /\ (i - c.si = c.ss \/ word[i - c.si])
Since(c, word, i) == LET r == {j \in 1..(i - 1) : Forgets(c, word, j)} IN IF r = {} THEN c.ss + 1 ELSE (CHOOSE j \in r : \A q \in r : q <= j) + 1
Detections(c, word) ==
  {i \in (c.ss + 1)..Len(word) : word[i] /\ Count(word, Since(c, word, i), i) = c.sr}
FirstOf(c, word, i) == CHOOSE j \in Since(c, word, i)..i : word[j] /\ \A q \in Since(c, word, i)..(j - 1) : ~word[q]
=============================================================================
