SPECIFICATION Spec
CONSTANT YSets = {0, 1}
INVARIANT Inv Emit
