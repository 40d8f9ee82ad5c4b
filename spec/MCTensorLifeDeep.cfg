SPECIFICATION MSpec
CONSTANTS
  BIG = FALSE
  NSlots = 3
  SIM = FALSE
  OPS = "life"
  MaxLen = 8
  MaxDim = 2
  Shapes <- LifeShapes
CONSTRAINT Bound
ACTION_CONSTRAINT ExportAll
VIEW View
INVARIANT Inv
CHECK_DEADLOCK FALSE
