SPECIFICATION MSpec
CONSTANTS
  MaxLen = 6
INVARIANTS OneCell Ratios Bounded
CHECK_DEADLOCK FALSE
