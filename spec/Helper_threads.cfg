SPECIFICATION Spec
CONSTANT Bug = "threads"
INVARIANTS AsPlanned TeamsAsked
CHECK_DEADLOCK FALSE
