SPECIFICATION Spec
CONSTANTS
  Clients = {c1, c2}
  Users = {1, 2}
  MaxSteps = 7
  MaxConns = 4
  Variant = "staleunsub"
INVARIANTS Rights Kept Gone
CHECK_DEADLOCK FALSE
