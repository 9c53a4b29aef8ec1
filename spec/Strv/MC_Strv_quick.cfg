INIT Init
NEXT Next
CONSTANTS
  V = {1, 2}
  N = 3
  Words <- Three
  WithNew = TRUE
INVARIANTS Absent OneWay DedupLaws OrderLaws
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
