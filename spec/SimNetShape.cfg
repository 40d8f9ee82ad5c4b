SPECIFICATION SSpec
CONSTANTS SIM = TRUE N = 5 MaxLen = 24
INVARIANTS SimExport
CHECK_DEADLOCK FALSE
