CONSTANTS MaxB = 3
 Vals = {0, 1, 3}
 Until = 3
 Gen = FALSE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms Sound
CHECK_DEADLOCK FALSE
