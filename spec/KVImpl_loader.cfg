SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2}
  Vals = {1, 2}
  MaxTime = 3
  MaxOps = 3
  Variant = "loader"
INVARIANTS ReadsAgree DiskIsPast ClosedIsPresent
CHECK_DEADLOCK FALSE
