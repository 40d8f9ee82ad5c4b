SPECIFICATION SSpec
CONSTANTS
  SIM = TRUE
  GROUP = "geo"
  MaxLen = 7
  Deep = FALSE
INVARIANTS SimExport
CHECK_DEADLOCK FALSE
