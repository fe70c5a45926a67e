INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
POSTCONDITION Done
CONSTANTS Ks = {2, 3, 4} NCoin = 3 NAlt = 3 MaxLen = 0 MaxEnv = 0 NTape = 0 MaxKeys = 0 Printing = FALSE
