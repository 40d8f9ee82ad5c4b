SPECIFICATION MSpec
CONSTANTS
  BIG = FALSE
  NSlots = 2
  SIM = FALSE
  OPS = "copy"
  MaxLen = 6
  MaxDim = 2
  Shapes <- CopyShapes
CONSTRAINT Bound
ACTION_CONSTRAINT ExportAll
VIEW View
INVARIANT Inv
PROPERTY CopyLocal
CHECK_DEADLOCK FALSE
