SPECIFICATION Spec
CONSTANTS
 MaxDev = 3
 MaxFeats = 3
 Threads = {1, 2, 4, 8}
 Layouts = {"c", "f", "strided", "reversed", "wide", "f32", "list", "readonly", "swapped", "int"}
CHECK_DEADLOCK FALSE
