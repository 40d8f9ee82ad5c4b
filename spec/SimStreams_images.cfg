SPECIFICATION SSpec
CONSTANTS
  NT = 3
  BIG = FALSE
  MODE = "images"
  MaxLen = 40
INVARIANTS Sane SimExport
CHECK_DEADLOCK FALSE
