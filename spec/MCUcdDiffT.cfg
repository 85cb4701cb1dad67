SPECIFICATION Spec
CONSTANTS
  MaxArgs = 5
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
