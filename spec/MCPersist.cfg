SPECIFICATION MSpec
CONSTANTS
  BIG = FALSE
  NSlots = 2
  HDR = 8
  PAGE = 1024
  SIM = FALSE
  MaxLen = 6
  MaxRecs = 2
  MaxPats = 1
CONSTRAINT Bound
ACTION_CONSTRAINT Export
VIEW View
INVARIANT TypeOk
PROPERTY RoundTrip
CHECK_DEADLOCK FALSE
