CONSTANTS MaxB = 3
 Vals = {0, 3}
 Until = 0
 Gen = TRUE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms Sound
CHECK_DEADLOCK FALSE
