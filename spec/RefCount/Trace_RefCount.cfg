INIT Init
NEXT Next
CONSTANT Th = {1, 2, 3}
CONSTRAINT Progress
POSTCONDITION Followed
CHECK_DEADLOCK FALSE
