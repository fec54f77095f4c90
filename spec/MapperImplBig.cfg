SPECIFICATION Spec
INVARIANTS Fresh Settled Stuck
CHECK_DEADLOCK FALSE
CONSTANTS
  Docs = {1, 2}
  Writers = {"w1", "w2", "w3"}
  Queries = {"q1"}
  Eager = FALSE
  Bump = FALSE
  Pending = {}
  Variant = "none"
