------------------------------ MODULE MC_Stiff ------------------------------
(* Every word of signals up to a length, for every small setting: the counters *)
(* of the machine agree with the statement without counters.                   *)
EXTENDS Stiff
CONSTANTS Most
VARIABLES c, w, s
Init == c \in [sr : 1..3, si : 1..3, ss : 0..2] /\ w = <<>> /\ s = S0
Next == Len(w) < Most /\ \E h \in BOOLEAN : w' = Append(w, h) /\ s' = Signal(c, s, h) /\ UNCHANGED c
Same == /\ s = Detect(c, w)
        /\ {s.log[i][1] : i \in 1..Len(s.log)} = Detections(c, w)
        /\ \A i \in 1..Len(s.log) : s.log[i][2] = FirstOf(c, w, s.log[i][1])
Counters == s.yes >= 0 /\ s.no <= s.k /\ (s.det => s.yes = c.sr /\ s.no = 0) /\ (s.first = None <=> s.yes = 0)
\* two detections are separated by at least so many negative signals in a row
Apart == \A i \in 1..(Len(s.log) - 1) : \E j \in s.log[i][1]..(s.log[i + 1][2] - 1) : Forgets(c, w, j)
=============================================================================
