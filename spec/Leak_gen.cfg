INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
CONSTANTS Broken = {}
 Vals = {0}
