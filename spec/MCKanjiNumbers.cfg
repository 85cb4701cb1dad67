CONSTANTS
  N = 4
  N2 = 2
SPECIFICATION Spec
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
