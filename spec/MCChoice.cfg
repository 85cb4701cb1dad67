CONSTANTS
  Cset = {97,98}
  MaxLines = 1
SPECIFICATION Spec
INVARIANTS ListingOK AnswerOK Agree RejectedEarly
PROPERTY Terminates
CHECK_DEADLOCK FALSE
