SPECIFICATION Spec
CONSTANTS
 MaxDev = 2
 MaxFeats = 2
 Threads = {1, 3}
 Layouts = {"c", "f", "strided", "reversed", "wide", "f32", "list", "readonly", "swapped", "int"}
CHECK_DEADLOCK FALSE
