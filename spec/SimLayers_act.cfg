SPECIFICATION SSpec
CONSTANTS
  SIM = TRUE
  GROUP = "act"
  MaxLen = 7
  Deep = FALSE
INVARIANTS SimExport
CHECK_DEADLOCK FALSE
