SPECIFICATION Spec
CONSTANTS
  Alphabet <- A_quick
  MaxLines = 3
INVARIANT Inv
CHECK_DEADLOCK FALSE
