SPECIFICATION Spec
CONSTANT MaxDev = 2
CHECK_DEADLOCK FALSE
