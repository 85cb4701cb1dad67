SPECIFICATION Spec
CONSTANTS
  Forms3 = {1, 3, 4, 5, 10, 12, 11, 6}
  MaxRecs = 4
  NCodes = 4
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
