CONSTANTS MaxN = 3
 Vals = {0, 1, 2}
 B = 2
 A = 2
 Kind = "disc"
 Gen = FALSE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms Together
CHECK_DEADLOCK FALSE
