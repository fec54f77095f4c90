SPECIFICATION Spec
CONSTANTS Tokens = {1, 2} SaveKey = "collection" MapKey = "collection" CompactKey = "default" PersistKey = "default" ReadVault = TRUE
INVARIANTS Hidden
CHECK_DEADLOCK FALSE
