INIT Init
NEXT Next
POSTCONDITION Done
CHECK_DEADLOCK FALSE
CONSTANTS Branch = "getrandom" Lens = {0} MaxFaults = 0 MaxReqs = 0 MaxHist = 0 Printing = FALSE
