SPECIFICATION Spec
CONSTANTS
  Subs <- SameDb
  Publishers = {1}
  Topics = {1}
  Dbs = {1, 2}
  MaxMsgs = 2
  Prefixed = TRUE
  GlobalIds = TRUE
  EarlyMap = FALSE
  InOrder = TRUE
  TopicsGone = TRUE
INVARIANTS Own Fifo All
CHECK_DEADLOCK FALSE
