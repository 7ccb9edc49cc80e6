CONSTANTS N = 5
 K = 4
 Gen = FALSE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms Alike
CHECK_DEADLOCK FALSE
