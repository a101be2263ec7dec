SPECIFICATION Spec
CONSTANT Bug = "none"
INVARIANTS AsPlanned TeamsAsked
CHECK_DEADLOCK FALSE
