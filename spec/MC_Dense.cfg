CONSTANTS Steps = 2 Wide = FALSE
INIT Init
NEXT Next
INVARIANTS Laws Rank Norms
CHECK_DEADLOCK FALSE
