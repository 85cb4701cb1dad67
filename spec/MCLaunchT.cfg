SPECIFICATION Spec
CONSTANTS
 Most = 3
INVARIANTS Inv EmitAll
CHECK_DEADLOCK FALSE
