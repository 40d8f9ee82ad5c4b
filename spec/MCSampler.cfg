SPECIFICATION MSpec
CONSTANTS
  SIM = FALSE
  MaxLen = 0
INVARIANTS Even Boundary RestIsBehind TestPrefix
PROPERTY TestIgnoresTraining
CHECK_DEADLOCK FALSE
