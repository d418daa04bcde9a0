CONSTANTS
  Most = 9
INIT Init
NEXT Next
INVARIANT Same
INVARIANT Counters
INVARIANT Apart
CHECK_DEADLOCK FALSE
