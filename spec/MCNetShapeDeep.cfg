SPECIFICATION MSpec
CONSTANTS SIM = FALSE N = 3 MaxLen = 0
INVARIANTS Closed
PROPERTIES Fragile
CHECK_DEADLOCK FALSE
