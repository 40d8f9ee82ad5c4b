SPECIFICATION SSpec
CONSTANTS
  S = 2
  W = 2
  SIM = TRUE
  MaxN = 9
  MODE = "pass"
  MaxLen = 34
INVARIANT SimExport
CHECK_DEADLOCK FALSE
