SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Kinds = {"sha", "hmac", "aes", "cipher", "decipher"}
INVARIANTS OwnInputsOnly Small MayBe
CHECK_DEADLOCK FALSE
