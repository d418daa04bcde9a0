CONSTANTS Dim = 3  MaxLen = 9  Depth = 99  GenDepth = 12
INIT Init
NEXT Next
CONSTRAINT GenBound
INVARIANTS Emit
CHECK_DEADLOCK FALSE
