SPECIFICATION Spec
CONSTANT MaxChars = 4
INVARIANT Inv
