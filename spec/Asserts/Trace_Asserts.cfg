INIT TInit
NEXT TNext
CONSTRAINT Progress
POSTCONDITION Followed
CHECK_DEADLOCK FALSE
