INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Ks = {2} NCoin = 3 NAlt = 3 MaxLen = 12 MaxEnv = 5 NTape = 7 MaxKeys = 2 Printing = TRUE
