SPECIFICATION MSpec
CONSTANTS
  SIM = FALSE
  GROUP = "geo"
  MaxLen = 0
  Deep = FALSE
INVARIANTS Derivative Sound
CHECK_DEADLOCK FALSE
