SPECIFICATION CSpec
CONSTANTS
  WL = 2
  Marker = 1
  Rle = 2
  RLMax = 4
  RLMin = 2
  CHDR = 40
  NSlots = 1
  MaxLen = 9
  Words <- SmallWords
INVARIANTS Lossless Fits
CHECK_DEADLOCK FALSE
