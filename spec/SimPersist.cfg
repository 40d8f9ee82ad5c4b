SPECIFICATION MSpec
CONSTANTS
  BIG = FALSE
  NSlots = 4
  HDR = 8
  PAGE = 1024
  SIM = TRUE
  MaxLen = 45
  MaxRecs = 7
  MaxPats = 6
INVARIANT TypeOk
INVARIANT SimExport
CHECK_DEADLOCK FALSE
