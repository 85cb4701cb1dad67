CONSTANTS
  Strk = {"1", "2", "3", "5", "64", "65"}
SPECIFICATION Spec
INVARIANTS Inv
CHECK_DEADLOCK FALSE
