CONSTANTS
  Max = 3
  Depth = 4
SPECIFICATION Spec
INVARIANTS Inv Emit
PROPERTY Stable
CHECK_DEADLOCK FALSE
