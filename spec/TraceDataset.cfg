SPECIFICATION TSpec
CONSTANT Off = 0
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
