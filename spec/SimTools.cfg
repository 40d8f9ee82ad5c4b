SPECIFICATION SSpec
CONSTANTS NF = 3 MaxLen = 20 MaxDepth = 0 MaxList = 0 MakeInto = {}
INVARIANT SimExport
CHECK_DEADLOCK FALSE
