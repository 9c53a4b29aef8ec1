INIT Init
NEXT Next
CONSTANT Q = {1, 2, 3}
INVARIANTS TypeOK Place DestroyAtMostOnce NotBeforeItsTime Quiet
CONSTRAINT Progress
POSTCONDITION Followed
CHECK_DEADLOCK FALSE
