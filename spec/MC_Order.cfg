CONSTANTS N = 5
INIT Init
NEXT Next
INVARIANTS Same Alternate Ranked Two Mirror
CHECK_DEADLOCK FALSE
