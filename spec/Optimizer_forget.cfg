SPECIFICATION Spec
CONSTANTS
 Poses = {1, 2, 3}
 Errors = {0, 1}
 Opt = "lm"
 MaxIts = {2}
 MaxIns = {2}
 Lambdas = {1024}
 F = 2
 TrialSees = "point"
INVARIANTS NeverWorse CurrentIsLastAccepted ErrorMatches Bounded Damping ConvergedOnlyAtEnd
PROPERTY Terminates
CHECK_DEADLOCK FALSE
