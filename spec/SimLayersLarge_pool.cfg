SPECIFICATION BSpec
CONSTANTS
  SIM = TRUE
  GROUP = "pool"
  MaxLen = 2
  Deep = FALSE
INVARIANTS SimExport
CHECK_DEADLOCK FALSE
