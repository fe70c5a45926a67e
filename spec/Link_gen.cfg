SPECIFICATION SpecGen
CONSTANT MaxLoad = 99
CHECK_DEADLOCK FALSE
