CONSTANTS
  V = 3
  S = 4
  D = 4
INIT Init
NEXT Next
INVARIANTS Bracket Counted Whole Between Spread
CHECK_DEADLOCK FALSE
