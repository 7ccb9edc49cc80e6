CONSTANTS MaxB = 4
 Vals = {0, 1, 3}
 Until = 0
 Gen = FALSE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms Sound
CHECK_DEADLOCK FALSE
