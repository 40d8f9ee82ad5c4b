SPECIFICATION MSpec
CONSTANTS
  MaxLines = 4
  Menu <- MenuD
INVARIANTS Theorems
CHECK_DEADLOCK FALSE
