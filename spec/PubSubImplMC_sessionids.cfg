SPECIFICATION Spec
CONSTANTS
  Subs <- SameDb
  Publishers = {1}
  Topics = {1, 2}
  Dbs = {1, 2}
  MaxMsgs = 2
  Prefixed = TRUE
  GlobalIds = FALSE
  EarlyMap = TRUE
  InOrder = TRUE
  TopicsGone = TRUE
INVARIANTS Own Fifo All
CHECK_DEADLOCK FALSE
