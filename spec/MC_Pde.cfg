CONSTANTS Depth = 3
INIT MCInit
NEXT MCNext
INVARIANTS PeriodicSidesFree Partition Topology Symmetric Kernel Linear CornerOwner
CHECK_DEADLOCK FALSE
