SPECIFICATION MSpec
CONSTANTS
  SIM = FALSE
  GROUP = "conv"
  MaxLen = 0
  Deep = FALSE
INVARIANTS Derivative Sound
CHECK_DEADLOCK FALSE
