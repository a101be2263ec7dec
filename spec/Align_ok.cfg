SPECIFICATION Spec
CONSTANTS Ext = 2
 Num = 3
 Shift = 8
 Wide = FALSE
INVARIANT Recovered
CHECK_DEADLOCK FALSE
