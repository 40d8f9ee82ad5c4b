SPECIFICATION SSpec
CONSTANTS
  Off = 0
  MODE = "whole"
  MaxImg = 5
  MaxLen = 16
INVARIANT SimExport
CHECK_DEADLOCK FALSE
