SPECIFICATION MSpec
CONSTANTS
  BIG = TRUE
  NSlots = 3
  SIM = TRUE
  OPS = "copy"
  MaxLen = 24
  MaxDim = 4
  Shapes <- LifeShapes
INVARIANT Inv
INVARIANT SimExport
CHECK_DEADLOCK FALSE
