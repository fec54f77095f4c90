SPECIFICATION Spec
CONSTANTS MaxFields = 2 MaxLen = 2 Bytes = {0, 1, 2} Kinds = {"f", "of", "s", "os"} B = 3
 Term = TRUE Pad = TRUE Escape = TRUE Behind = FALSE Marks = TRUE
INVARIANTS Order
CHECK_DEADLOCK FALSE
