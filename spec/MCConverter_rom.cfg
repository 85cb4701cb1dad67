CONSTANTS
  Alpha <- A_rom
  MaxLen = 4
  Script = "Romaji"
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
