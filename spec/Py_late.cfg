SPECIFICATION Spec
CONSTANT Bug = "late"
INVARIANT AsPlanned
CHECK_DEADLOCK FALSE
