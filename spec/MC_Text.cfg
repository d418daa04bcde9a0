CONSTANTS N = 3
INIT Init
NEXT Next
INVARIANTS Verdict Content Square Silent
CHECK_DEADLOCK FALSE
