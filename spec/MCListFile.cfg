CONSTANTS
  L1 = 3
  L2 = 2
  MB <- MCMB
SPECIFICATION Spec
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
