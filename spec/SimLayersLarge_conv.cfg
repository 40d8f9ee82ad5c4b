SPECIFICATION BSpec
CONSTANTS
  SIM = TRUE
  GROUP = "conv"
  MaxLen = 2
  Deep = FALSE
INVARIANTS SimExport
CHECK_DEADLOCK FALSE
