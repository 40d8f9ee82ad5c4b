SPECIFICATION MSpec
CONSTANTS
  U = 1024
  Tol = 0
  SIM = FALSE
  MaxLen = 12
INVARIANTS SameAsSolo EpochCount IterationsCounted
PROPERTY TestsChangeNothing
CHECK_DEADLOCK FALSE
