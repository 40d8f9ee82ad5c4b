SPECIFICATION TSpec
CONSTANTS
  Names = {"unnamed", "a", "experiment-with-a-rather-long-name_0123456789", "x/y"}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
