SPECIFICATION Spec
CONSTANTS
 Limits <- LimQ
 NumTrials = 4
 NumOutcomes = 7
 NumSteps = 2
 NumKinds = 5
CHECK_DEADLOCK FALSE
