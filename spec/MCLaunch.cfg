SPECIFICATION Spec
CONSTANTS
 Most = 3
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
