CONSTANTS N = 4
 K = 4
 Gen = FALSE
 Mut = "mutates"
SPECIFICATION Spec
INVARIANTS Conforms Alike
CHECK_DEADLOCK FALSE
