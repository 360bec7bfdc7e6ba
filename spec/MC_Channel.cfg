SPECIFICATION Spec
CONSTANTS
  MsgMax = 4
  Total = 4
  Messages = 2
  PieceMax = 4
  Alphabet = {0, 1, 2}
  Ivs <- TwoIvs
  Reads = {0, 1, 2, 3, 4, 5}
INVARIANTS CipherCanonical Released HeldBack Delivered BoundaryWorks Clean Small Work FlushSafe
PROPERTY LengthsOK
CHECK_DEADLOCK FALSE
