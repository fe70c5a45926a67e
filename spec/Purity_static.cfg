SPECIFICATION Spec
INVARIANT Pure
CHECK_DEADLOCK FALSE
CONSTANTS Place = "static"
 NAct = 2
 Cells = 2
 MaxSwitch = 1
 Warm = FALSE
