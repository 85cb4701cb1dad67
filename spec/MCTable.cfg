SPECIFICATION Spec
CONSTANTS
  MaxCells = 2
  MaxRows = 1
INVARIANT Inv
CHECK_DEADLOCK FALSE
