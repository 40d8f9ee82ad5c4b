SPECIFICATION SSpec
CONSTANTS MaxLen = 7 MaxC = 3 MaxI = 2 MaxP = 3 Ws = {1}
INVARIANT SimExport
CHECK_DEADLOCK FALSE
