CONSTANTS Prop = "N04"
INIT Init
NEXT Next
INVARIANTS Emit
CHECK_DEADLOCK FALSE
