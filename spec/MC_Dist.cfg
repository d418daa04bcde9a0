CONSTANT K = 40
INIT Init
NEXT Next
INVARIANTS Positive Half Whole Ratio Even Back
CHECK_DEADLOCK FALSE
