CONSTANTS R = 1
INIT Init
NEXT Next
INVARIANTS DetOk AdjOk GramOk InvSharp EigSharp
CHECK_DEADLOCK FALSE
