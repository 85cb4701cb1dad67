SPECIFICATION Spec
CONSTANTS MaxBits = 12
 MaxText = 3
INVARIANT Inv
