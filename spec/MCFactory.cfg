SPECIFICATION MSpec
CONSTANTS
  MaxLines = 3
  Menu <- MenuQ
INVARIANTS Theorems
CHECK_DEADLOCK FALSE
