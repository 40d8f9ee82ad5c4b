SPECIFICATION MSpec
CONSTANTS
  S = 1
  W = 1
  SIM = FALSE
  MaxN = 4
  MODE = "model"
  MaxLen = 0
INVARIANTS Confluent NoStuck
CHECK_DEADLOCK FALSE
