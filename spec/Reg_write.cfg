SPECIFICATION Spec
CONSTANTS
 Objs = {1, 2}
 Values = {1, 2}
 Sizes = {1, 2}
 Bug = "write"
INVARIANTS OnlySettingsDecide Untouched
CHECK_DEADLOCK FALSE
