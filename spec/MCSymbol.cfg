CONSTANTS
  Max = 3
  Depth = 3
SPECIFICATION Spec
INVARIANTS Inv Emit
PROPERTY Stable
CHECK_DEADLOCK FALSE
