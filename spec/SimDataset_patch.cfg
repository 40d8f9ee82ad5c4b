SPECIFICATION SSpec
CONSTANTS
  Off = 0
  MODE = "patch"
  MaxImg = 5
  MaxLen = 16
INVARIANT SimExport
CHECK_DEADLOCK FALSE
