INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Inv
CONSTANTS BlockCand = 112 Need = 256 MaxBlocks = 9 Printing = TRUE
 Counts = {0, 1, 2, 31, 32, 55, 56, 85, 86, 91, 110, 111, 112}
 Layouts = {"front", "back", "even", "odd2", "rnd", "ends"}
