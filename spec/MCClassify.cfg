SPECIFICATION MSpec
CONSTANTS
  MaxLen = 5
INVARIANTS OneCell Ratios Bounded
CHECK_DEADLOCK FALSE
