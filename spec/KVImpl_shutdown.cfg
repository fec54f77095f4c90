SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2}
  Vals = {1, 2}
  MaxTime = 3
  MaxOps = 3
  Variant = "shutdown"
INVARIANTS ReadsAgree DiskIsPast ClosedIsPresent
CHECK_DEADLOCK FALSE
