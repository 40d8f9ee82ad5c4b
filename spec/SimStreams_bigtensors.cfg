SPECIFICATION SSpec
CONSTANTS
  NT = 3
  BIG = TRUE
  MODE = "tensors"
  MaxLen = 16
INVARIANTS Sane SimExport
CHECK_DEADLOCK FALSE
