SPECIFICATION Spec
CONSTANTS MaxFields = 3 MaxLen = 2 Bytes = {0, 1} Kinds = {"f", "of", "s", "os"} B = 3
 Term = TRUE Pad = TRUE Escape = TRUE Behind = TRUE Marks = TRUE
INVARIANTS RoundTrip Unique Order
CHECK_DEADLOCK FALSE
