SPECIFICATION Spec
CONSTANTS N = 3
 Kind = "map"
 Depth = 3
 Big = 256
INVARIANTS Inv Emit
