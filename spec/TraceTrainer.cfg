SPECIFICATION TSpec
CONSTANTS
  U = 1024
  Tol = 4
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
