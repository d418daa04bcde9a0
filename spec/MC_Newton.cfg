CONSTANTS
 Its = 3
 Levels = 2
INIT Init
NEXT Next
INVARIANTS Success Failure Stops NotAsked Bounded
CHECK_DEADLOCK FALSE
