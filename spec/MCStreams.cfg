SPECIFICATION MSpec
CONSTANTS
  NT = 2
  BIG = FALSE
  MODE = "model"
  MaxLen = 0
INVARIANT Sane
PROPERTY Refused
CHECK_DEADLOCK FALSE
