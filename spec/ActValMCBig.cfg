CONSTANTS MaxN = 4
 Vals = {0, 1, 2}
 B = 2
 A = 3
 Kind = "disc"
 Gen = FALSE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms Together
CHECK_DEADLOCK FALSE
