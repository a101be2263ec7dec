SPECIFICATION Spec
CONSTANTS
 Limits <- LimQ
 NumTrials = 3
 NumOutcomes = 6
 NumSteps = 2
 NumKinds = 5
CHECK_DEADLOCK FALSE
