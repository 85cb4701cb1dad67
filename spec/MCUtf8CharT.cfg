SPECIFICATION Spec
CONSTANTS MaxPieces = 4
 MaxOps = 4
INVARIANT Inv
PROPERTY NextMonotone
