SPECIFICATION Spec
CONSTANTS
  Alphabet = {".", "k", "%", "2", "e", "5", "/"}
  IdAlphabet = {0, 1, 2, 16, 255, 3}
  NsLen = 5
  KeyLen = 3
  IdLen = 6
  Variant = "ok"
INVARIANTS KeysBack IdsBack FilesBack Earlier
CHECK_DEADLOCK FALSE
