INIT Init
NEXT Next
CONSTRAINT Progress
POSTCONDITION Followed
CHECK_DEADLOCK FALSE
