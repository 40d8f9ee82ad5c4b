SPECIFICATION MSpec
CONSTANTS MaxLen = 0 MaxC = 3 MaxI = 2 MaxP = 4 Ws = {0, 1, 4, 6}
INVARIANTS Complete Even Balanced
CHECK_DEADLOCK FALSE
