SPECIFICATION SSpec
CONSTANTS
  Deep = FALSE
  MaxLen = 16
INVARIANT SimExport
CHECK_DEADLOCK FALSE
