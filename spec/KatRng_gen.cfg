INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS Base = 3 Digits = 2 Bufs = 1 Budgets = {0, 1, 2, 15, 16, 17, 18, 33, 64, 255, 256, 257, 1000, 65535, 65536, 65537, 1000000} MaxOps = 14 MaxKinds = 40 Printing = TRUE GenLens = {0, 1, 2, 15, 16, 17, 31, 32, 33, 47, 48, 49, 64, 96, 97}
