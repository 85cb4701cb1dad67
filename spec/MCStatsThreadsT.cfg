SPECIFICATION Spec
CONSTANTS
 Kinds = 3
 MaxLen = 5
INVARIANTS NoConflict Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
