SPECIFICATION Spec
CONSTANTS
 Names = {1,2,3,4,5,6,7}
 Members = {1,2,3,4,5,7,9,10}
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
