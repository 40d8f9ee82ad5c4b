SPECIFICATION SSpec
CONSTANTS
  Off = 0
  MODE = "whole"
  MaxImg = 14
  MaxLen = 40
INVARIANT SimExport
CHECK_DEADLOCK FALSE
