SPECIFICATION MSpec
CONSTANTS
  BIG = FALSE
  NSlots = 4
  SIM = TRUE
  OPS = "life"
  MaxLen = 40
  MaxDim = 4
  Shapes <- LifeShapes
INVARIANT Inv
INVARIANT SimExport
CHECK_DEADLOCK FALSE
