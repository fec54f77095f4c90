SPECIFICATION Spec
CONSTANT Depth = 30
INVARIANT Inv
CHECK_DEADLOCK FALSE
