INIT Init
NEXT Next
CONSTANTS
  NS = 6
  NV = 4
CONSTRAINT Progress
POSTCONDITION Followed
CHECK_DEADLOCK FALSE
