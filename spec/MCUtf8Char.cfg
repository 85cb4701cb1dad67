SPECIFICATION Spec
CONSTANTS MaxPieces = 3
 MaxOps = 3
INVARIANT Inv
PROPERTY NextMonotone
