SPECIFICATION SSpec
CONSTANTS
  SIM = TRUE
  GROUP = "conv"
  MaxLen = 7
  Deep = FALSE
INVARIANTS SimExport
CHECK_DEADLOCK FALSE
