SPECIFICATION Spec
CONSTANTS
 Poses = {1, 2, 3}
 Errors = {0, 1}
 Opt = "gn"
 MaxIts = {0, 1, 4}
 MaxIns = {0}
 Lambdas = {1024}
 F = 2
 TrialSees = "all"
INVARIANTS NeverWorse CurrentIsLastAccepted ErrorMatches Bounded Damping ConvergedOnlyAtEnd
PROPERTY Terminates
CHECK_DEADLOCK FALSE
