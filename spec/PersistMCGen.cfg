CONSTANTS N = 4
 K = 2
 Gen = TRUE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms Alike
CHECK_DEADLOCK FALSE
