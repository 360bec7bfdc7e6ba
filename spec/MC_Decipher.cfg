SPECIFICATION Spec
CONSTANTS
  InMax = 5
  PieceMax = 3
  Alphabet = {0, 1, 3}
INVARIANTS KeyInForce NoKeyNoOutput NoKeyNothingDone Small ReleasedPrefix FlushExact NotInit OneOutcome BadKeys
CHECK_DEADLOCK FALSE
