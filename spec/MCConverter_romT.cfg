CONSTANTS
  Alpha <- A_rom
  MaxLen = 5
  Script = "Romaji"
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
