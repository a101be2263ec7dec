SPECIFICATION Spec
CONSTANTS
 Coords <- C2
 NPts = 4
 Dirs <- D1
 N = 0
 Workers = {1}
 Mode = "ok"
INVARIANT RuleIsRight
CHECK_DEADLOCK FALSE
