SPECIFICATION Spec
CONSTANTS
  Opts <- O_quick
  LinesOf <- L_thorough
  MaxArgs = 4
  MaxLines = 4
INVARIANT Inv
PROPERTY Steps
CHECK_DEADLOCK FALSE
