INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Inv
CONSTANTS BlockCand = 112 Need = 256 MaxBlocks = 7 Printing = FALSE
 Counts = {0, 1, 56, 85, 86, 111, 112}
 Layouts = {"rnd"}
