SPECIFICATION Spec
CONSTANTS
 Poses = {1, 2, 3, 4}
 Errors = {0, 1, 2}
 Opt = "lm"
 MaxIts = {2, 4}
 MaxIns = {1, 3}
 Lambdas = {1024}
 F = 2
 TrialSees = "all"
INVARIANTS NeverWorse CurrentIsLastAccepted ErrorMatches Bounded Damping ConvergedOnlyAtEnd
PROPERTY Terminates
CHECK_DEADLOCK FALSE
