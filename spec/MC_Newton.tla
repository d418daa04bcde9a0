------------------------------ MODULE MC_Newton -----------------------------
(* Newton's method over abstract residual sizes: whatever sizes the function  *)
(* returns, whichever call fails and wherever the matrix is singular, the     *)
(* recorded calls satisfy the contract, and success means a small residual.   *)
(* Line search over every small quadratic: an accepted step decreases the     *)
(* function, an honest descent direction is always accepted in the end.       *)
EXTENDS Newton
CONSTANTS Its, Levels
VARIABLES calls, st, it, ls, trial, fail
vars == <<calls, st, it, ls, trial, fail>>
\* residual sizes: 0 below tolerance, Levels above the divergence limit
F(v) == [k |-> "f", v |-> v]
J == [k |-> "j", v |-> 0]
LastF == SelectSeq(calls, LAMBDA c : c.k = "f")
Cur == LastF[Len(LastF)].v
NJ == Len(SelectSeq(calls, LAMBDA c : c.k = "j"))
Init == calls = << >> /\ st = "start" /\ it = 0 /\ ls \in BOOLEAN /\ trial = 0 /\ fail \in 0..5
Call(c, next) == calls' = Append(calls, c) /\ st' = (IF fail = Len(calls) + 1 THEN "err" ELSE next)
Begin == st = "start" /\ \E v \in 0..Levels : Call(F(v), "test") /\ UNCHANGED <<it, ls, trial, fail>>
Test == st = "test" /\ UNCHANGED <<ls, fail, calls, trial>> /\
  IF it = Its THEN st' = "err" /\ it' = it
  ELSE it' = it + 1 /\ st' = (IF Cur = 0 THEN "ok" ELSE IF it > 0 /\ Cur = Levels THEN "err" ELSE "jac")
Jac == st = "jac" /\ UNCHANGED <<it, ls, fail>> /\ trial' = 0 /\ (Call(J, "step") \/ Call(J, "err"))
Step == st = "step" /\ UNCHANGED <<it, ls, fail>> /\ trial' = trial + 1 /\
  \E v \in 0..Levels : Call(F(v), IF ls /\ trial < 2 /\ v >= Cur THEN "step" ELSE "test")
Next == Begin \/ Test \/ Jac \/ Step
Over == st \in {"ok", "err"}
Success == st = "ok" => Cur = 0 /\ calls[Len(calls)].k = "f" /\ NJ <= Its - 1 /\ NJ + 1 = it
Failure == st = "err" => Len(calls) = fail \/ calls[Len(calls)].k = "j" \/ NJ = Its \/ Cur = Levels
Stops == fail > 0 => Len(calls) <= fail
NotAsked == \A k \in 1..Len(calls) : calls[k].k = "j" => k > 1 /\ calls[k - 1].k = "f" /\ calls[k - 1].v # 0
Bounded == NJ <= Its

Quads == {<<a, b, c>> \in (-2..2) \X (-2..2) \X (-2..2) : TRUE}
Case(c, x, p, c1) == [way |-> 0, c |-> c, x |-> x, p |-> p, c1 |-> c1, rho |-> 2, mina |-> 1, max |-> 8, fail |-> 0,
                      fx |-> c[1] + c[2] * x + c[3] * x * x, slope |-> p * (c[2] + 2 * c[3] * x)]
ASSUME Descent == \A c \in Quads : \A x \in -2..2, p \in -2..2, c1 \in {1, 8} : LET e == Case(c, x, p, c1) IN
  e.slope < 0 => LET m == FirstStop(e) IN Accepts(e, m) /\ (LET d == Den(e, m)
                                                                z == x * d + p
                                                            IN c[3] * z * z + c[2] * z * d + c[1] * d * d < e.fx * d * d)
ASSUME Taylor == \A c \in Quads : \A q \in -8..8 : D1q(c, q + 4) - D1q(c, q) = 4 * D2q(c, q)
=============================================================================
