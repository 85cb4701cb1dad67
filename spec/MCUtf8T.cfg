SPECIFICATION Spec
CONSTANTS MaxLen = 4
 BlockTop = 17500
INVARIANT Inv
