INIT Init
NEXT Next
CONSTANTS
  MaxLines = 2
  MaxLen = 4
INVARIANT Inv
CHECK_DEADLOCK FALSE
