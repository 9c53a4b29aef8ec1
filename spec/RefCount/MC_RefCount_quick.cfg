INIT Init
NEXT Next
CONSTANTS
  Th = {1, 2, 3}
  MaxRefs = 3
  Ops = {"ref", "unref", "use"}
  Pay = TRUE
  Starts <- AllStarts
INVARIANT Inv1
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
