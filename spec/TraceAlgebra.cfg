SPECIFICATION TSpec
CONSTANT NR = 3
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
