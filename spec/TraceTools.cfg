SPECIFICATION TSpec
CONSTANT NF = 3
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
