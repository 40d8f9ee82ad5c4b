SPECIFICATION MSpec
CONSTANTS
  Off = 0
  MODE = "model"
  MaxImg = 5
  MaxLen = 0
INVARIANTS Injective CountIsPositions FullIsBijective Distinguishable
CHECK_DEADLOCK FALSE
