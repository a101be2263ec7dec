SPECIFICATION Spec
CONSTANTS
 Limits <- LimG
 NumTrials = 1
 NumOutcomes = 1
 NumSteps = 5
 NumKinds = 6
CHECK_DEADLOCK FALSE
