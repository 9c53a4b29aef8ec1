INIT Init
NEXT Next
INVARIANTS TypeOK
CONSTRAINT Progress
POSTCONDITION Followed
CHECK_DEADLOCK FALSE
