SPECIFICATION SSpec
CONSTANTS
  Names = {"unnamed", "a", "experiment-with-a-rather-long-name_0123456789", "x/y"}
  MaxLen = 24
INVARIANTS SimExport
CHECK_DEADLOCK FALSE
