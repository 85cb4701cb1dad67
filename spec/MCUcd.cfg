CONSTANTS
  Strk = {"1", "5", "65"}
SPECIFICATION Spec
INVARIANTS Inv
CHECK_DEADLOCK FALSE
