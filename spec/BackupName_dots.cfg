SPECIFICATION Spec
CONSTANTS
  Alphabet = {".", "k", "%", "2", "e", "5", "/"}
  IdAlphabet = {0, 1, 2, 16, 255, 3}
  NsLen = 4
  KeyLen = 2
  IdLen = 4
  Variant = "dots"
INVARIANTS KeysBack IdsBack FilesBack Earlier
CHECK_DEADLOCK FALSE
