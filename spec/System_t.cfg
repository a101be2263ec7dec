SPECIFICATION Spec
CONSTANTS
 Coords <- CT
 Weights <- WQ
 Twist = 1
INVARIANTS GradientIsExact InfoIsWeight GNIsInformation
CHECK_DEADLOCK FALSE
