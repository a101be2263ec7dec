SPECIFICATION Spec
CONSTANT Bug = "ok"
INVARIANT AsPlanned
CHECK_DEADLOCK FALSE
