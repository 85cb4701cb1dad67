SPECIFICATION Spec
CONSTANT YSets = {0, 1, 2, 3}
INVARIANT Inv Emit
