CONSTANTS MaxDeg = 3 R = 1
INIT Init
NEXT Next
INVARIANTS Edge Straight Deriv Dual
CHECK_DEADLOCK FALSE
