INIT Init
NEXT Next
CONSTANT Len0 = 24
CHECK_DEADLOCK FALSE
