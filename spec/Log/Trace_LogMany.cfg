INIT Init
NEXT Next
CONSTANT M = 24
CONSTRAINT Progress
POSTCONDITION Followed
CHECK_DEADLOCK FALSE
