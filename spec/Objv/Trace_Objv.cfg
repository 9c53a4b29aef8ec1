INIT Init
NEXT Next
CONSTANTS
  V = {1, 2, 3}
  O = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
INVARIANTS Absent NoGhosts
CONSTRAINT Progress
POSTCONDITION Followed
CHECK_DEADLOCK FALSE
