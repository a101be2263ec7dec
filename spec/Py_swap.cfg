SPECIFICATION Spec
CONSTANT Bug = "swap"
INVARIANT AsPlanned
CHECK_DEADLOCK FALSE
