CONSTANTS
  HLen = 3
  RLen = 3
  Wanted <- W
SPECIFICATION Spec
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
