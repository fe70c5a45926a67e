INIT Init
NEXT Next
POSTCONDITION Done
CHECK_DEADLOCK FALSE
CONSTANTS W = 32 MaxLen = 0 Delta = {0}
