SPECIFICATION Spec
CONSTANTS Callers = {1, 2, 3}
 Cells = {1, 2, 3}
 Vals = {0, 1, 3}
 Design = "cache"
INVARIANT AsAlone
PROPERTY NothingWritten
CHECK_DEADLOCK FALSE
