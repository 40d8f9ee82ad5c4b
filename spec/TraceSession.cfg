SPECIFICATION TSpec
CONSTANTS Default = "unnamed"
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
