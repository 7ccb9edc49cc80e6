CONSTANTS MaxN = 3
 Vals = {0, 1}
 B = 2
 A = 2
 Kind = "disc"
 Gen = FALSE
 Mut = "worst"
SPECIFICATION Spec
INVARIANTS Conforms 
CHECK_DEADLOCK FALSE
