SPECIFICATION MSpec
CONSTANTS
  Names = {"unnamed", "a"}
  MaxLen = 9
VIEW MaxLenView
INVARIANTS Exact Rows Columns Everyone
PROPERTIES OldFilesStay
CHECK_DEADLOCK FALSE
