SPECIFICATION Spec
CONSTANTS
  Subs <- TwoSubs
  Publishers = {1}
  Topics = {1}
  Dbs = {1, 2}
  MaxMsgs = 2
  Prefixed = FALSE
  GlobalIds = TRUE
  EarlyMap = TRUE
  InOrder = TRUE
  TopicsGone = TRUE
INVARIANTS Own Fifo All
CHECK_DEADLOCK FALSE
