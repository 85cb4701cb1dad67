SPECIFICATION Spec
CONSTANTS
 Counts = {1, 2, 3}
 Freqs = {1, 2, 3}
 Types = {1, 9}
INVARIANTS Strict Entire Whole
CHECK_DEADLOCK FALSE
