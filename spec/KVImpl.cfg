SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2}
  Vals = {1, 2}
  MaxTime = 3
  MaxOps = 2
  Variant = "ok"
INVARIANTS ReadsAgree DiskIsPast ClosedIsPresent
CHECK_DEADLOCK FALSE
