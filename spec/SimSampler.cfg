SPECIFICATION SSpec
CONSTANTS
  SIM = TRUE
  MaxLen = 40
INVARIANT SimExport
CHECK_DEADLOCK FALSE
