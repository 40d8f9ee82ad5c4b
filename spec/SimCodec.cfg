SPECIFICATION SSpec
CONSTANTS
  WL = 4
  Marker = 88
  Rle = 89
  RLMax = 253
  RLMin = 2
  CHDR = 40
  NSlots = 3
  MaxLen = 25
  Words <- SmallWords
INVARIANT SimExport
CHECK_DEADLOCK FALSE
