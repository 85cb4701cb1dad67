SPECIFICATION Spec
CONSTANT MaxChars = 2
INVARIANT Inv
