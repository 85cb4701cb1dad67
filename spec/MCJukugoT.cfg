SPECIFICATION Spec
CONSTANTS
 Pool = {1,2,3,4,5,6,7,8}
 Size = 4
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
