SPECIFICATION Spec
CONSTANTS
  Forms3 = {1, 3, 4, 5, 10, 12, 11, 6}
  MaxRecs = 3
  NCodes = 3
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
