INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Inv
CONSTANTS Rates = {136, 168} Handles = {1, 2} MaxOps = 14 MaxStarts = 5 MaxMsg = 900 MaxOut = 900 Printing = TRUE
