SPECIFICATION Spec
CONSTANTS
  Alphabet <- A_thorough
  MaxLines = 4
INVARIANT Inv
CHECK_DEADLOCK FALSE
