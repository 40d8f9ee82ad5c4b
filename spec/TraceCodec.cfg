SPECIFICATION TSpec
CONSTANTS
  WL = 4
  Marker = 88
  Rle = 89
  RLMax = 253
  RLMin = 2
  CHDR = 40
  NSlots = 3
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
