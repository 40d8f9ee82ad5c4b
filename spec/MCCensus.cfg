SPECIFICATION MSpec
CONSTANTS MaxLen = 0 MaxC = 3 MaxI = 2 MaxP = 3 Ws = {0, 2, 4}
INVARIANTS Complete Even Balanced
CHECK_DEADLOCK FALSE
