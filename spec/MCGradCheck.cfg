SPECIFICATION MSpec
CONSTANTS
  Deep = FALSE
  MaxLen = 0
INVARIANTS SlopeIsQuotient Partition More AllRight
PROPERTY Kept
CHECK_DEADLOCK FALSE
