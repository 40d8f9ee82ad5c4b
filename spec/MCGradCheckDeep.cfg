SPECIFICATION MSpec
CONSTANTS
  Deep = TRUE
  MaxLen = 0
INVARIANTS SlopeIsQuotient Partition More AllRight
PROPERTY Kept
CHECK_DEADLOCK FALSE
