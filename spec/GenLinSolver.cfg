CONSTANTS Depth = 99  Gen = 6
INIT Init
NEXT Next
CONSTRAINT GenBound
INVARIANTS Emit
CHECK_DEADLOCK FALSE
