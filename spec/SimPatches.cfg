SPECIFICATION SSpec
CONSTANTS MaxW = 0 MaxH = 0 MaxP = 0 MaxLen = 8
INVARIANT SimExport
CHECK_DEADLOCK FALSE
