SPECIFICATION MSpec
CONSTANTS NF = 2 MaxLen = 0 MaxDepth = 4 MaxList = 2 MakeInto = {1}
INVARIANTS Agree PairsWhole OneClass Reversible
PROPERTY Untouched
CHECK_DEADLOCK FALSE
