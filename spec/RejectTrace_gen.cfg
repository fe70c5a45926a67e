INIT MInit
NEXT MNext
INVARIANT MInv
CHECK_DEADLOCK FALSE
CONSTANTS NCells = 8 Printing = TRUE
