SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Kinds = {"sha", "cipher", "decipher"}
INVARIANTS OwnInputsOnly Small MayBe
CHECK_DEADLOCK FALSE
