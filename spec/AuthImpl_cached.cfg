SPECIFICATION Spec
CONSTANTS
  Procs = {p1, p2}
  Changes = 2
  Variant = "cached"
INVARIANTS Once Right
CHECK_DEADLOCK FALSE
