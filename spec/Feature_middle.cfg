SPECIFICATION Spec
CONSTANTS
 Coords <- C2
 NPts = 3
 Dirs <- D1
 N = 0
 Workers = {1}
 Mode = "middle"
INVARIANT RuleIsRight
CHECK_DEADLOCK FALSE
