CONSTANTS Depth = 7  Gen = 0
INIT Init
NEXT Next
VIEW View
CONSTRAINT Bound
INVARIANTS LockFits DetSolve
PROPERTIES LockStable RefusalKeeps LastWins
CHECK_DEADLOCK FALSE
