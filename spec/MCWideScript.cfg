SPECIFICATION Spec
CONSTANTS
  Max = 6
  MaxLines = 4
  Widths = {"W", "F", "N"}
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
