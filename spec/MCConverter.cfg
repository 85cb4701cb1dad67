CONSTANTS
  Alpha <- A_kana
  MaxLen = 4
  Script = "Hiragana"
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
