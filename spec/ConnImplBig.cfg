SPECIFICATION Spec
CONSTANTS
  Clients = {c1, c2}
  Users = {1, 2}
  MaxSteps = 9
  MaxConns = 5
  Variant = "ok"
INVARIANTS Rights Kept Gone
CHECK_DEADLOCK FALSE
