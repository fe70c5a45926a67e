SPECIFICATION Spec
INVARIANT Pure
CHECK_DEADLOCK FALSE
CONSTANTS Place = "static"
 NAct = 3
 Cells = 2
 MaxSwitch = 0
 Warm = FALSE
