CONSTANTS
  MaxTry = 7
  MaxFail = 3
  Target = 11
  Steps = 5
INIT Init
NEXT Next
INVARIANTS
  SecondaryFollows
  NeverBeyond
  Counts
  BoundedFailures
  Justified
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
