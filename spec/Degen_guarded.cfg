SPECIFICATION Spec
CONSTANTS MaxN = 7
 MaxK = 8
 Design = "guarded"
INVARIANTS InBounds Markers
PROPERTY Returns
CHECK_DEADLOCK FALSE
