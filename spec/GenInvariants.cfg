CONSTANTS
  W = 3
INIT Init
NEXT Next
INVARIANTS Emit
CHECK_DEADLOCK FALSE
