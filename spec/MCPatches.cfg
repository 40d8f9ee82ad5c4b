SPECIFICATION MSpec
CONSTANTS MaxW = 4 MaxH = 4 MaxP = 5 MaxLen = 0
INVARIANTS Extracted Placed Labelled
CHECK_DEADLOCK FALSE
