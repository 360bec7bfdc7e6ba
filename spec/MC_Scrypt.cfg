SPECIFICATION Spec
CONSTANTS
  R = 2
  N = 4
  P = 2
  Starts = {0, 7}
INVARIANTS Refines VExact InBounds Order Work
PROPERTY Terminates
CHECK_DEADLOCK FALSE
