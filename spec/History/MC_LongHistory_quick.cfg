CONSTANTS Size = 3 Span = 4 MaxNow = 10
INIT Init
NEXT Next
INVARIANTS LBounded LOrdered Described Average
CHECK_DEADLOCK FALSE
