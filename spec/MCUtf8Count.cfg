INIT Init
NEXT Next
CONSTANTS
  MaxLines = 2
  MaxLen = 3
INVARIANT Inv
CHECK_DEADLOCK FALSE
