INIT Init
NEXT Next
CONSTANT I = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
INVARIANTS NeverEmpty Kept Sound Reachable
CONSTRAINT Progress
POSTCONDITION Followed
CHECK_DEADLOCK FALSE
