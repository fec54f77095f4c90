SPECIFICATION Spec
CONSTANTS Tokens = {1, 2} SaveKey = "collection" MapKey = "own" CompactKey = "collection" PersistKey = "default" ReadVault = TRUE
INVARIANTS Hidden
CHECK_DEADLOCK FALSE
