SPECIFICATION MSpec
CONSTANTS
  Names = {"unnamed", "a"}
  MaxLen = 8
VIEW MaxLenView
INVARIANTS Exact Rows Columns Everyone
PROPERTIES OldFilesStay
CHECK_DEADLOCK FALSE
