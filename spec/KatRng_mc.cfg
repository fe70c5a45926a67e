INIT Init
NEXT Next
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS Base = 3 Digits = 3 Bufs = 1 Budgets = {0, 1, 40} MaxOps = 5 MaxKinds = 4 Printing = FALSE GenLens = {0, 1, 16, 17}
