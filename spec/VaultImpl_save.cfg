SPECIFICATION Spec
CONSTANTS Tokens = {1, 2} SaveKey = "default" MapKey = "collection" CompactKey = "collection" PersistKey = "default" ReadVault = TRUE
INVARIANTS Hidden
CHECK_DEADLOCK FALSE
