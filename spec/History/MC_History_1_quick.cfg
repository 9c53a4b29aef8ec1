INIT Init
NEXT Next
CONSTANTS
  Size = 1
  Span = 2
  Vals <- V2
INVARIANTS Bounded Ordered Inv1 Inv2
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
