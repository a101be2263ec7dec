SPECIFICATION Spec
CONSTANTS MaxN = 7
 MaxK = 8
 Design = "first"
INVARIANTS InBounds Markers
PROPERTY Returns
CHECK_DEADLOCK FALSE
