SPECIFICATION TSpec
CONSTANTS
  S = 2
  W = 2
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
