SPECIFICATION MSpec
CONSTANTS
  BIG = FALSE
  NSlots = 3
  SIM = FALSE
  OPS = "copy"
  MaxLen = 8
  MaxDim = 2
  Shapes <- CopyShapes
CONSTRAINT Bound
ACTION_CONSTRAINT ExportAll
VIEW View
INVARIANT Inv
PROPERTY CopyLocal
CHECK_DEADLOCK FALSE
