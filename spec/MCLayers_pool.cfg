SPECIFICATION MSpec
CONSTANTS
  SIM = FALSE
  GROUP = "pool"
  MaxLen = 0
  Deep = FALSE
INVARIANTS Derivative Sound
CHECK_DEADLOCK FALSE
