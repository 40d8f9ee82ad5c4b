SPECIFICATION MSpec
CONSTANTS
  N = 2
  MaxLen = 0
INVARIANTS Whole NoTwice Shown
CHECK_DEADLOCK FALSE
