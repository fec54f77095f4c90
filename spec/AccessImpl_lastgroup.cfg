SPECIFICATION Spec
CONSTANT Variant = "lastgroup"
INVARIANT Same None Monotone
CHECK_DEADLOCK FALSE
