SPECIFICATION Spec
CONSTANTS
  Max = 8
  MaxLines = 5
  Widths = {"W", "F", "N", "Na"}
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
