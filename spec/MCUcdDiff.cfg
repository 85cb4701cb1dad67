SPECIFICATION Spec
CONSTANTS
  MaxArgs = 4
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
