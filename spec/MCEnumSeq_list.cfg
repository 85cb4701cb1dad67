SPECIFICATION Spec
CONSTANTS N = 3
 Kind = "list"
 Depth = 2
 Big = 256
INVARIANTS Inv Emit
