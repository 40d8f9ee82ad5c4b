SPECIFICATION SSpec
CONSTANTS
  SIM = TRUE
  GROUP = "pool"
  MaxLen = 7
  Deep = FALSE
INVARIANTS SimExport
CHECK_DEADLOCK FALSE
