SPECIFICATION MSpec
CONSTANTS
  SIM = FALSE
  GROUP = "conv"
  MaxLen = 0
  Deep = TRUE
INVARIANTS Derivative Sound
CHECK_DEADLOCK FALSE
