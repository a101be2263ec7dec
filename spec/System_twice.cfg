SPECIFICATION Spec
CONSTANTS
 Coords <- CQ
 Weights <- WQ
 Twist = 2
INVARIANTS GradientIsExact InfoIsWeight GNIsInformation
CHECK_DEADLOCK FALSE
