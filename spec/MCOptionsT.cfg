SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
