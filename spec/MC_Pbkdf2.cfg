SPECIFICATION Spec
CONSTANTS
  HLen = 3
  MaxLen = 10
  MaxC = 3
INVARIANTS Refines AllWritten OnceOnly ShorterIsPrefix Inductive Work
PROPERTY Terminates
CHECK_DEADLOCK FALSE
