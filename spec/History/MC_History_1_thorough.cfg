INIT Init
NEXT Next
CONSTANTS
  Size = 2
  Span = 4
  Vals <- V3
INVARIANTS Bounded Ordered Inv1 Inv2
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
