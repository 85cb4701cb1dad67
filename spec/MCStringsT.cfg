SPECIFICATION Spec
CONSTANTS MaxBits = 16
 MaxText = 4
INVARIANT Inv
