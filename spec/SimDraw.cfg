SPECIFICATION SSpec
CONSTANTS
  N = 7
  MaxLen = 18
INVARIANT SimExport
CHECK_DEADLOCK FALSE
