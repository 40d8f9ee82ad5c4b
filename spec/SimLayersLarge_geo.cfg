SPECIFICATION BSpec
CONSTANTS
  SIM = TRUE
  GROUP = "geo"
  MaxLen = 2
  Deep = FALSE
INVARIANTS SimExport
CHECK_DEADLOCK FALSE
