CONSTANTS Size = 4 Span = 5 MaxNow = 16
INIT Init
NEXT Next
INVARIANTS LBounded LOrdered Described Average
CHECK_DEADLOCK FALSE
