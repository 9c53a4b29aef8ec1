INIT Init
NEXT Next
CONSTANT M = 4
CONSTRAINT Progress
POSTCONDITION Followed
CHECK_DEADLOCK FALSE
