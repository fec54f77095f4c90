SPECIFICATION Spec
CONSTANTS
  MaxBlocks = 3
  MaxLen = 2
  MaxRead = 3
  Buffers = {0, 2, 3}
  Stamp = TRUE
  Keep = FALSE
  Missing = TRUE
  Bounds = TRUE
INVARIANTS Right Position
PROPERTY Ends
CHECK_DEADLOCK FALSE
