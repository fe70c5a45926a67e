SPECIFICATION Spec
CONSTANT MaxLoad = 3
CONSTRAINT Bound
VIEW View
INVARIANT Bindings
INVARIANT Complete
CHECK_DEADLOCK FALSE
