CONSTANTS MaxN = 3
 Vals = {0}
 B = 2
 A = 2
 Kind = "disc"
 Gen = TRUE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms 
CHECK_DEADLOCK FALSE
