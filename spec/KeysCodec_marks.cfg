SPECIFICATION Spec
CONSTANTS MaxFields = 3 MaxLen = 7 Bytes = {1} Kinds = {"s"} B = 2
 Term = TRUE Pad = TRUE Escape = TRUE Behind = TRUE Marks = FALSE
INVARIANTS RoundTrip
CHECK_DEADLOCK FALSE
