SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Names = {1}
  MaxGen = 3
  MaxCtx = 3
  MaxWrites = 3
  Leftover = TRUE
  RecordFirst = FALSE
  Guarded = TRUE
  OpenLocked = TRUE
  CheckFirst = TRUE
INVARIANTS Contents Listed NothingLeft Ended
CHECK_DEADLOCK FALSE
