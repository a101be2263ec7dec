SPECIFICATION Spec
CONSTANTS
 Coords <- CQ
 Weights <- WQ
 Twist = 1
INVARIANTS GradientIsExact InfoIsWeight GNIsInformation
CHECK_DEADLOCK FALSE
