CONSTANTS N = 10
 K = 8
 Gen = FALSE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms Alike
CHECK_DEADLOCK FALSE
