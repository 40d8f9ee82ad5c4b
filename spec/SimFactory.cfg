SPECIFICATION SSpec
CONSTANTS
  MaxLines = 14
  Menu <- MenuQ
INVARIANTS SimExport
CHECK_DEADLOCK FALSE
