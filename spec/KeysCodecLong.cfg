SPECIFICATION Spec
CONSTANTS MaxFields = 2 MaxLen = 7 Bytes = {1} Kinds = {"s", "os"} B = 2
 Term = TRUE Pad = TRUE Escape = TRUE Behind = TRUE Marks = TRUE
INVARIANTS RoundTrip Unique Order
CHECK_DEADLOCK FALSE
