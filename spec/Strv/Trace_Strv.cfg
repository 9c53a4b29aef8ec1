INIT Init
NEXT Next
CONSTANT V = {1, 2, 3}
INVARIANTS Absent
CONSTRAINT Progress
POSTCONDITION Followed
CHECK_DEADLOCK FALSE
