SPECIFICATION Spec
CONSTANTS Tokens = {1, 2} SaveKey = "collection" MapKey = "collection" CompactKey = "collection" PersistKey = "default" ReadVault = TRUE
INVARIANTS Hidden CanRead
CHECK_DEADLOCK FALSE
