CONSTANTS
  Depth = 4
INIT Init
NEXT Next
INVARIANT LastWins
INVARIANT Held
INVARIANT Sharp
CHECK_DEADLOCK FALSE
