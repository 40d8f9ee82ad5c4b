SPECIFICATION MSpec
CONSTANTS Sizes <- QuickSizes Deep = FALSE MaxLen = 0
INVARIANTS Evaluated Moved
CHECK_DEADLOCK FALSE
