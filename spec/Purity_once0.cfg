SPECIFICATION Spec
INVARIANT Pure
CHECK_DEADLOCK FALSE
CONSTANTS Place = "once"
 NAct = 3
 Cells = 3
 MaxSwitch = 0
 Warm = FALSE
