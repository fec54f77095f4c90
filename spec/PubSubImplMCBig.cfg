SPECIFICATION Spec
CONSTANTS
  Subs <- Three
  Publishers = {1, 2}
  Topics = {1, 2}
  Dbs = {1, 2}
  MaxMsgs = 2
  Prefixed = TRUE
  GlobalIds = TRUE
  EarlyMap = TRUE
  InOrder = TRUE
  TopicsGone = TRUE
INVARIANTS Own Fifo All
CHECK_DEADLOCK FALSE
