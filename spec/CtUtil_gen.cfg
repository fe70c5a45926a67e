INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
CONSTANTS W = 32 MaxLen = 68 Delta = {0}
