CONSTANTS
  Alpha <- A_kana
  MaxLen = 5
  Script = "Hiragana"
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
