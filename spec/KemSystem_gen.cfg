INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Ks = {2, 3, 4} NCoin = 3 NAlt = 3 MaxLen = 16 MaxEnv = 5 NTape = 7 MaxKeys = 4 Printing = TRUE
