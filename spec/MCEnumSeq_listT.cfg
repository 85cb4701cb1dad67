SPECIFICATION Spec
CONSTANTS N = 3
 Kind = "list"
 Depth = 3
 Big = 256
INVARIANTS Inv Emit
