INIT Init
NEXT Next
CONSTANT Unique = TRUE
INVARIANTS TypeOK Bounded NothingLeft Owned
CONSTRAINT Progress
POSTCONDITION Followed
CHECK_DEADLOCK FALSE
