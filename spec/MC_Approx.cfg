CONSTANTS
  C = 1
  Most = 3
INIT Init
NEXT Next
INVARIANTS Through Reproduce Bounded LastBad Unity Ends
CHECK_DEADLOCK FALSE
