----------------------------- MODULE MC_Nonlin -----------------------------
(* Bounded model of a continuation run: attempts of every outcome, in any    *)
(* order, against the stop criteria and the secondary state of the user.     *)
EXTENDS NonlinRun
CONSTANTS MaxTry, MaxFail, Target, Steps
VARIABLES mode, lam, h, sec, bk, ph, att, acc, nfail, rej, failed, code, tried
vars == <<mode, lam, h, sec, bk, ph, att, acc, nfail, rej, failed, code, tried>>

\* mode = <<auto, stop kind, secondary state is kept>>
Modes == [auto : BOOLEAN, k : {"maxl", "steps"}]
Reached == (mode.k = "maxl" /\ lam >= Target) \/ (mode.k = "steps" /\ att >= Steps)
Init == /\ mode \in Modes /\ lam = 0 /\ h = 4 /\ sec = 0 /\ bk = -1 /\ ph = "top"
        /\ att = 0 /\ acc = 0 /\ nfail = 0 /\ rej = 0 /\ failed = FALSE /\ code = "" /\ tried = 0
Inc == IF mode.k = "maxl" THEN Min2(h, Target - lam) ELSE h
Begin == /\ ph = "top" /\ att < MaxTry
         /\ att' = att + 1 /\ bk' = (IF mode.auto THEN sec ELSE bk) /\ tried' = lam + Inc
         /\ sec' = lam + Inc /\ ph' = "try"
         /\ UNCHANGED <<mode, lam, h, acc, nfail, rej, failed, code>>
Stop(c) == ph' = "end" /\ code' = c
GiveUp == \* an attempt fails in a way that cannot be repeated
  /\ ph = "try" /\ Stop("terminate") /\ sec' = (IF mode.auto THEN bk ELSE sec)
  /\ UNCHANGED <<mode, lam, h, bk, att, acc, nfail, rej, failed, tried>>
Fail ==
  /\ ph = "try" /\ sec' = (IF mode.auto THEN bk ELSE sec)
  /\ IF ~mode.auto THEN Stop("failed") /\ UNCHANGED <<h, nfail, rej, failed>>
     ELSE /\ nfail' = nfail + 1 /\ failed' = TRUE
          /\ IF nfail + 1 >= MaxFail THEN Stop("continued") /\ UNCHANGED <<h, rej>>
             ELSE /\ rej' = rej + 1 /\ h' = h \div 2
                  /\ IF h \div 2 = 0 THEN Stop("small") ELSE ph' = "top" /\ UNCHANGED code
  /\ UNCHANGED <<mode, lam, bk, att, acc, tried>>
Accept ==
  /\ ph = "try" /\ acc' = acc + 1 /\ lam' = tried
  /\ \E f \in {1, 2} : h' = IF mode.auto /\ ~failed THEN Min2(h * f, 8) ELSE h
  /\ nfail' = 0 /\ failed' = FALSE
  /\ ph' = (IF (mode.k = "maxl" /\ tried >= Target) \/ (mode.k = "steps" /\ att >= Steps) THEN "end" ELSE "top")
  /\ code' = (IF ph' = "end" THEN "success" ELSE "")
  /\ UNCHANGED <<mode, sec, bk, att, rej, tried>>
UserStop == ph = "top" /\ acc > 0 /\ Stop("success") /\ UNCHANGED <<mode, lam, h, sec, bk, att, acc, nfail, rej, failed, tried>>
Exhausted == ph = "top" /\ att = MaxTry /\ Stop("limit") /\ UNCHANGED <<mode, lam, h, sec, bk, att, acc, nfail, rej, failed, tried>>
Next == Begin \/ GiveUp \/ Fail \/ Accept \/ UserStop \/ Exhausted

\* the secondary state is that of the accepted state whenever the run is between attempts or over
SecondaryFollows == (ph = "top" \/ (ph = "end" /\ (mode.auto \/ code = "success"))) => sec = lam
NeverBeyond == mode.k = "maxl" => lam <= Target
Counts == /\ acc + rej <= att /\ (~mode.auto => rej = 0) /\ nfail <= MaxFail
          /\ (ph = "top" => acc + rej = att)
BoundedFailures == ph = "top" => nfail < MaxFail
Justified == /\ (code = "continued" => nfail = MaxFail)
             /\ (code = "small" => h = 0)
             /\ (ph = "top" /\ acc > 0 /\ ~failed => ~Reached)
Monotone == [][lam' >= lam /\ att' >= att /\ (failed /\ ph = "try" /\ lam' # lam => h' <= h)]_vars
=============================================================================
