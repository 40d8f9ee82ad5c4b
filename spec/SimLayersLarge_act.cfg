SPECIFICATION BSpec
CONSTANTS
  SIM = TRUE
  GROUP = "act"
  MaxLen = 2
  Deep = FALSE
INVARIANTS SimExport
CHECK_DEADLOCK FALSE
