SPECIFICATION Spec
INVARIANT Pure
CHECK_DEADLOCK FALSE
CONSTANTS Place = "count"
 NAct = 3
 Cells = 2
 MaxSwitch = 0
 Warm = FALSE
