SPECIFICATION Spec
CONSTANT MaxDev = 4
CHECK_DEADLOCK FALSE
