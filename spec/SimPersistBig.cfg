SPECIFICATION MSpec
CONSTANTS
  BIG = TRUE
  NSlots = 4
  HDR = 8
  PAGE = 1024
  SIM = TRUE
  MaxLen = 60
  MaxRecs = 7
  MaxPats = 6
INVARIANT TypeOk
INVARIANT SimExport
CHECK_DEADLOCK FALSE
