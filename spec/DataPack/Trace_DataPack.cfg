INIT Init
NEXT Next
INVARIANTS InRange
CONSTRAINT Progress
POSTCONDITION Followed
CHECK_DEADLOCK FALSE
