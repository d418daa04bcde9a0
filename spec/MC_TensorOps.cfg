CONSTANTS
  K = 3
INIT Init
NEXT Next
INVARIANTS One Two
CHECK_DEADLOCK FALSE
