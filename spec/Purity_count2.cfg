SPECIFICATION Spec
INVARIANT Pure
CHECK_DEADLOCK FALSE
CONSTANTS Place = "count"
 NAct = 2
 Cells = 2
 MaxSwitch = 2
 Warm = FALSE
