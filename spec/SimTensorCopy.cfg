SPECIFICATION MSpec
CONSTANTS
  BIG = FALSE
  NSlots = 3
  SIM = TRUE
  OPS = "copy"
  MaxLen = 30
  MaxDim = 4
  Shapes <- LifeShapes
INVARIANT Inv
INVARIANT SimExport
CHECK_DEADLOCK FALSE
