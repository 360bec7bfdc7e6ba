SPECIFICATION Spec
CONSTANTS
  BL = 4
  LenBytes = 2
  MaxLen = 9
  MaxPiece = 6
  Alphabet = {0, 128}
INVARIANTS TypeOK ChunkIndependent AsOneCall PaddingForm Recovered Extends Work
PROPERTY LengthsOK
CHECK_DEADLOCK FALSE
