SPECIFICATION Spec
CONSTANTS Tokens = {1, 2} SaveKey = "collection" MapKey = "collection" CompactKey = "collection" PersistKey = "default" ReadVault = FALSE
INVARIANTS CanRead
CHECK_DEADLOCK FALSE
