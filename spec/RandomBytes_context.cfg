SPECIFICATION MSpec
INVARIANT MInv
PROPERTY Terminates
CHECK_DEADLOCK FALSE
CONSTANTS Branch = "context" Lens = {0, 1, 4} MaxFaults = 2 MaxReqs = 2 MaxHist = 12 Printing = TRUE
