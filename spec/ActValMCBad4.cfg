CONSTANTS MaxN = 3
 Vals <- QuadVals
 B = 2
 A = 2
 Kind = "quad"
 Gen = FALSE
 Mut = "bounds"
SPECIFICATION Spec
INVARIANTS Conforms 
CHECK_DEADLOCK FALSE
