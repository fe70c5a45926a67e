INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
VIEW View
INVARIANT Inv
CONSTANTS Rates = {11} Handles = {1} MaxOps = 99 MaxStarts = 99 MaxMsg = 40 MaxOut = 40 Printing = FALSE
