CONSTANTS
  N = 8
  R = 60
INIT Init
NEXT Next
INVARIANTS Equation Slope Parity AtOne Same Orthogonal Remainder
CHECK_DEADLOCK FALSE
