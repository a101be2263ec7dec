SPECIFICATION Spec
CONSTANTS
 Limits <- LimG
 NumTrials = 1
 NumOutcomes = 1
 NumSteps = 4
 NumKinds = 5
CHECK_DEADLOCK FALSE
