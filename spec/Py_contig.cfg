SPECIFICATION Spec
CONSTANT Bug = "contig"
INVARIANT AsPlanned
CHECK_DEADLOCK FALSE
