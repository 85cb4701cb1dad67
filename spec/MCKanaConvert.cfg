SPECIFICATION Spec
CONSTANTS
  Opts <- O_quick
  LinesOf <- L_quick
  MaxArgs = 3
  MaxLines = 3
INVARIANT Inv
PROPERTY Steps
CHECK_DEADLOCK FALSE
