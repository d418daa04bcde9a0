CONSTANTS
  D = 2
INIT MInit
NEXT MNext
INVARIANTS Kept Spanned Rev
CHECK_DEADLOCK FALSE
