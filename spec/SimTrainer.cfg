SPECIFICATION SSpec
CONSTANTS
  U = 1024
  Tol = 0
  SIM = TRUE
  MaxLen = 14
INVARIANT SimExport
CHECK_DEADLOCK FALSE
