SPECIFICATION MSpec
CONSTANTS
  BIG = TRUE
  NSlots = 4
  SIM = TRUE
  OPS = "life"
  MaxLen = 24
  MaxDim = 4
  Shapes <- LifeShapes
INVARIANT Inv
INVARIANT SimExport
CHECK_DEADLOCK FALSE
