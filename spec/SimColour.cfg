SPECIFICATION SSpec
CONSTANTS
  MODE = "sim"
  MaxLen = 14
INVARIANT SimExport
CHECK_DEADLOCK FALSE
