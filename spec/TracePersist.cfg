SPECIFICATION TSpec
CONSTANTS
  NSlots = 4
  HDR = 8
  PAGE = 1024
INVARIANT TypeOk
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
