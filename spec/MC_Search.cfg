CONSTANTS
 N = 4
 W = 1
INIT Init
NEXT Next
INVARIANTS RootSafe RootDone MinDone MinEnds ExpDone ExpRun
CHECK_DEADLOCK FALSE
