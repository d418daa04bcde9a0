CONSTANTS Gen = 0
INIT Init
NEXT Next
INVARIANTS RoundTrip WriterCorrect CountsHold DropNoticed Emit
CHECK_DEADLOCK FALSE
