SPECIFICATION Spec
CONSTANTS Tokens = {1, 2} SaveKey = "collection" MapKey = "collection" CompactKey = "collection" PersistKey = "none" ReadVault = TRUE
INVARIANTS Hidden
CHECK_DEADLOCK FALSE
