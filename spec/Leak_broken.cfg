INIT MInit
NEXT MNext
INVARIANT MInv
CHECK_DEADLOCK FALSE
CONSTANTS Broken = {"select"}
 Vals = {0, 1}
