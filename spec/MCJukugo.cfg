SPECIFICATION Spec
CONSTANTS
 Pool = {1,2,3,4,5,7,8}
 Size = 3
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
