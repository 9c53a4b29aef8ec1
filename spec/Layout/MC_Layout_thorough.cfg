INIT Init
NEXT Next
CONSTANTS
  A = {0, 1, 2, 126, 127}
  B <- Parts
  Vals = 20000
INVARIANTS Back Order Positive Aligned
CHECK_DEADLOCK FALSE
