CONSTANTS
  Cset = {97,98,99}
  MaxLines = 2
SPECIFICATION Spec
INVARIANTS ListingOK AnswerOK Agree RejectedEarly
PROPERTY Terminates
CHECK_DEADLOCK FALSE
