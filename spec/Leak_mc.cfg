INIT MInit
NEXT MNext
INVARIANT MInv
CHECK_DEADLOCK FALSE
CONSTANTS Broken = {}
 Vals = {0, 1, 2}
