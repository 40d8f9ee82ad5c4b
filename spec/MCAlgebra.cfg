SPECIFICATION MSpec
CONSTANTS
  NR = 3
  Deep = FALSE
  MaxLen = 0
INVARIANTS AdjointCol AdjointSum Involution Products
CHECK_DEADLOCK FALSE
