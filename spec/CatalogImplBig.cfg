SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Names = {1, 2}
  MaxGen = 3
  MaxCtx = 4
  MaxWrites = 3
  Leftover = TRUE
  RecordFirst = TRUE
  Guarded = TRUE
  OpenLocked = TRUE
  CheckFirst = TRUE
INVARIANTS Contents Listed NothingLeft Ended
CHECK_DEADLOCK FALSE
