SPECIFICATION MSpec
CONSTANTS MaxW = 6 MaxH = 5 MaxP = 8 MaxLen = 0
INVARIANTS Extracted Placed Labelled
CHECK_DEADLOCK FALSE
