SPECIFICATION SSpec
CONSTANTS
  NT = 3
  BIG = FALSE
  MODE = "tensors"
  MaxLen = 40
INVARIANTS Sane SimExport
CHECK_DEADLOCK FALSE
