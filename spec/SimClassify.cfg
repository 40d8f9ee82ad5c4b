SPECIFICATION SSpec
CONSTANTS
  MaxLen = 24
INVARIANTS SimExport
CHECK_DEADLOCK FALSE
