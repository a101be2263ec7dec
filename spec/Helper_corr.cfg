SPECIFICATION Spec
CONSTANT Bug = "corr"
INVARIANTS AsPlanned TeamsAsked
CHECK_DEADLOCK FALSE
