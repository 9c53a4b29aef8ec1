INIT Init
NEXT Next
CONSTANTS
  P = {1, 2, 3, 4, 5, 6, 7, 8, 9}
  Main = 9
  S = {1, 2}
INVARIANTS Once NeverForgotten NoDangling DeadIsIdle NoImmortals
CONSTRAINT Progress
POSTCONDITION Followed
CHECK_DEADLOCK FALSE
