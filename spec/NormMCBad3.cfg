CONSTANTS MaxB = 3
 Vals = {0, 1, 3}
 Until = 0
 Gen = FALSE
 Mut = "stale"
SPECIFICATION Spec
INVARIANTS Conforms Sound
CHECK_DEADLOCK FALSE
