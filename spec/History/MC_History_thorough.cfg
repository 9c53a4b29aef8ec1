INIT Init
NEXT Next
CONSTANTS
  Size = 4
  Span = 5
  Vals <- V3
INVARIANTS Bounded Ordered Inv1 Inv2
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
