SPECIFICATION PSpec
CONSTANTS
  S = 1
  W = 1
  SIM = FALSE
  MaxN = 4
  MODE = "param"
  MaxLen = 0
PROPERTY Restores
PROPERTY Stretch
PROPERTY Kept
CHECK_DEADLOCK FALSE
