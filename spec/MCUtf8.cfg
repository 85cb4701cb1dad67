SPECIFICATION Spec
CONSTANTS MaxLen = 3
 BlockTop = 17500
INVARIANT Inv
