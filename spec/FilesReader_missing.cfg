SPECIFICATION Spec
CONSTANTS
  MaxBlocks = 2
  MaxLen = 2
  MaxRead = 3
  Buffers = {0, 2, 3}
  Stamp = TRUE
  Keep = TRUE
  Missing = FALSE
  Bounds = TRUE
INVARIANTS Right Position
PROPERTY Ends
CHECK_DEADLOCK FALSE
