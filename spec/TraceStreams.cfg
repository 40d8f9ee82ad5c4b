SPECIFICATION TSpec
CONSTANT NT = 3
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
