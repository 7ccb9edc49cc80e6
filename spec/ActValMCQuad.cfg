CONSTANTS MaxN = 3
 Vals <- QuadVals
 B = 2
 A = 2
 Kind = "quad"
 Gen = FALSE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms Together
CHECK_DEADLOCK FALSE
