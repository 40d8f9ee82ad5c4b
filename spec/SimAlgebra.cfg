SPECIFICATION SSpec
CONSTANTS
  NR = 3
  Deep = FALSE
  MaxLen = 12
INVARIANT SimExport
CHECK_DEADLOCK FALSE
