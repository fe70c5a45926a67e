SPECIFICATION Spec
CONSTANT MaxLoad = 0
CONSTRAINT Bound
INVARIANT OwnNames
INVARIANT Declared
INVARIANT Imports
INVARIANT Static
INVARIANT Sizes
INVARIANT AllSizes
CHECK_DEADLOCK FALSE
