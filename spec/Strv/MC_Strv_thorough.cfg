INIT Init
NEXT Next
CONSTANTS
  V = {1, 2}
  N = 4
  Words <- Four
  WithNew = TRUE
INVARIANTS Absent OneWay DedupLaws OrderLaws
VIEW View
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
