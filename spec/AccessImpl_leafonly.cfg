SPECIFICATION Spec
CONSTANT Variant = "leafonly"
INVARIANT Same None Monotone
CHECK_DEADLOCK FALSE
