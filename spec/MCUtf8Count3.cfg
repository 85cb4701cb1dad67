INIT Init
NEXT Next
CONSTANTS
  MaxLines = 3
  MaxLen = 2
INVARIANT Inv
CHECK_DEADLOCK FALSE
