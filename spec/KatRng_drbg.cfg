INIT Init
NEXT NextDrbg
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS Base = 3 Digits = 2 Bufs = 1 Budgets = {} MaxOps = 9 MaxKinds = 40 Printing = TRUE GenLens = {0, 1, 2, 15, 16, 17, 31, 32, 33, 47, 48, 49, 64, 96, 97}
