SPECIFICATION MSpec
CONSTANTS
  N = 3
  MaxLen = 0
INVARIANTS Whole NoTwice Shown
CHECK_DEADLOCK FALSE
