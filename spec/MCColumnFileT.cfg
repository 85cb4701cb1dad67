CONSTANTS
  HLen = 5
  RLen = 6
  Wanted <- W
SPECIFICATION Spec
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
