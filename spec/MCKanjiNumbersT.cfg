CONSTANTS
  N = 5
  N2 = 2
SPECIFICATION Spec
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
