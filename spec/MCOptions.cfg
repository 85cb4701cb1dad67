SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
