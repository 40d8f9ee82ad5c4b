CONSTANTS MaxLen = 11
Kind = "dataset"
SPECIFICATION SSpec
INVARIANT SimExport
CHECK_DEADLOCK FALSE
