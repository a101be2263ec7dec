SPECIFICATION Spec
CONSTANT Bug = "skip"
INVARIANT AsPlanned
CHECK_DEADLOCK FALSE
