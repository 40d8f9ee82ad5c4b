SPECIFICATION MSpec
CONSTANTS NF = 2 MaxLen = 0 MaxDepth = 5 MaxList = 1 MakeInto = {1}
INVARIANTS Agree PairsWhole OneClass Reversible
PROPERTY Untouched
CHECK_DEADLOCK FALSE
