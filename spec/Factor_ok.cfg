SPECIFICATION Spec
CONSTANTS
 Positions = {0, 1, 2, 3}
 Shifts = {0, 1, 2}
 Thresholds = {0, 1, 4}
 Mode = "ok"
INVARIANT Paired
CHECK_DEADLOCK FALSE
