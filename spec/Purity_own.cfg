SPECIFICATION Spec
INVARIANT Pure
CHECK_DEADLOCK FALSE
CONSTANTS Place = "own"
 NAct = 3
 Cells = 2
 MaxSwitch = 4
 Warm = FALSE
