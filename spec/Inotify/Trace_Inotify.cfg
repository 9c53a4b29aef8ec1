INIT Init
NEXT Next
CONSTANTS
  D = {1, 2, 3}
  WS = {1, 2, 3, 4, 5, 6}
CONSTRAINT Progress
POSTCONDITION Followed
CHECK_DEADLOCK FALSE
