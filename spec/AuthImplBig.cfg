SPECIFICATION Spec
CONSTANTS
  Procs = {p1, p2}
  Changes = 3
  Variant = "ok"
INVARIANTS Once Right
CHECK_DEADLOCK FALSE
