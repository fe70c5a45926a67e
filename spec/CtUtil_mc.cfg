INIT MInit
NEXT MNext
INVARIANT MInv
CHECK_DEADLOCK FALSE
CONSTANTS W = 3 MaxLen = 7 Delta = {0, 1, 2}
