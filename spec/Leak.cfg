INIT Init
NEXT Next
POSTCONDITION Done
CHECK_DEADLOCK FALSE
CONSTANTS Broken = {}
 Vals = {0}
