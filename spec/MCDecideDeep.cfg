SPECIFICATION MSpec
CONSTANTS Sizes <- DeepSizes Deep = TRUE MaxLen = 0
INVARIANTS Evaluated Moved
CHECK_DEADLOCK FALSE
