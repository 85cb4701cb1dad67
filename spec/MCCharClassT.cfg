SPECIFICATION Spec
CONSTANT MaxChars = 3
INVARIANT Inv
