CONSTANTS Dim = 2  MaxLen = 3  Depth = 99  GenDepth = 3
INIT Init
NEXT Next
CONSTRAINT GenBound
INVARIANTS Emit
CHECK_DEADLOCK FALSE
