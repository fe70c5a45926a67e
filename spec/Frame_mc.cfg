INIT MInit
NEXT MNext
INVARIANT MInv
CHECK_DEADLOCK FALSE
CONSTANTS W = 4
 MaxLen = 11
 MaxGap = 3
 Shifts = {0}
