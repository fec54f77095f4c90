SPECIFICATION Spec
CONSTANTS
  Trees = {t1, t2}
  MaxTx = 4
  MaxCrash = 2
  Retire = TRUE
  Order = "trees"
  EarlyAck = FALSE
INVARIANTS Durable Atomic Gone
CHECK_DEADLOCK FALSE
