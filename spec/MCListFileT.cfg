CONSTANTS
  L1 = 4
  L2 = 3
  MB <- MCMB
SPECIFICATION Spec
INVARIANTS Inv
CHECK_DEADLOCK FALSE
