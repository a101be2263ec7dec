SPECIFICATION Spec
CONSTANTS Callers = {1, 2, 3, 4}
 Cells = {1, 2}
 Vals = {0, 1, 3}
 Design = "local"
INVARIANT AsAlone
PROPERTY NothingWritten
CHECK_DEADLOCK FALSE
