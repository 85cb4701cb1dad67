SPECIFICATION Spec
CONSTANTS
  MaxCells = 2
  MaxRows = 2
INVARIANT Inv
CHECK_DEADLOCK FALSE
