SPECIFICATION Spec
INVARIANTS Fresh Settled Stuck
CHECK_DEADLOCK FALSE
CONSTANTS
  Docs = {1, 2}
  Writers = {"w1", "w2"}
  Queries = {"q1", "q2"}
  Eager = FALSE
  Bump = FALSE
  Pending = {}
  Variant = "anyjob"
