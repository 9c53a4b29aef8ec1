INIT Init
NEXT Next
CONSTANTS
  O = {1, 2, 3, 4, 5, 6}
  R = {1, 2, 3}
CONSTRAINT Progress
POSTCONDITION Followed
CHECK_DEADLOCK FALSE
