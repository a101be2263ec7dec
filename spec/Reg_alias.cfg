SPECIFICATION Spec
CONSTANTS
 Objs = {1, 2}
 Values = {1, 2}
 Sizes = {1, 2}
 Bug = "alias"
INVARIANTS OnlySettingsDecide Untouched
CHECK_DEADLOCK FALSE
