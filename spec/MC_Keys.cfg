SPECIFICATION Spec
CONSTANTS
  InMax = 4
  PieceMax = 2
  Alphabet = {0, 3}
INVARIANTS KeysExact CipherLog DecipherLog
PROPERTY Isolated
CHECK_DEADLOCK FALSE
