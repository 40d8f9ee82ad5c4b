SPECIFICATION TSpec
CONSTANT NSlots = 4
INVARIANT Inv
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
