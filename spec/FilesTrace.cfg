SPECIFICATION Spec
INVARIANT Unique
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
