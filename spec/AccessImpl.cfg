SPECIFICATION Spec
CONSTANT Variant = "ok"
INVARIANT Same None Monotone
CHECK_DEADLOCK FALSE
