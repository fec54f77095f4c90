SPECIFICATION Spec
CONSTANT Variant = "firstchild"
INVARIANT Same None Monotone
CHECK_DEADLOCK FALSE
