SPECIFICATION SSpec
CONSTANTS Sizes <- QuickSizes Deep = FALSE MaxLen = 7
INVARIANT SimExport
CHECK_DEADLOCK FALSE
