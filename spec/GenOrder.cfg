CONSTANTS N = 5
INIT Init
NEXT Next
INVARIANTS Emit
CHECK_DEADLOCK FALSE
