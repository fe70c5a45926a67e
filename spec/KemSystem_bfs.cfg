INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Inv
CONSTANTS Ks = {2} NCoin = 2 NAlt = 1 MaxLen = 4 MaxEnv = 2 NTape = 3 MaxKeys = 2 Printing = TRUE
