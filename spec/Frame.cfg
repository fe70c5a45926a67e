INIT Init
NEXT Next
POSTCONDITION Done
CHECK_DEADLOCK FALSE
CONSTANTS W = 4
 MaxLen = 8
 MaxGap = 2
 Shifts = {0}
