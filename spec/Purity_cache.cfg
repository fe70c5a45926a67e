SPECIFICATION Spec
INVARIANT Pure
CHECK_DEADLOCK FALSE
CONSTANTS Place = "cache"
 NAct = 2
 Cells = 2
 MaxSwitch = 0
 Warm = FALSE
