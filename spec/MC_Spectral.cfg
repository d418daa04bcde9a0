CONSTANTS MaxDeg = 3
INIT Init
NEXT Next
INVARIANTS Balance Corners Outward Values
CHECK_DEADLOCK FALSE
