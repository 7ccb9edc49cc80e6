CONSTANTS N = 2
 K = 3
 Calls = 6
 Gen = FALSE
 Refill = FALSE
SPECIFICATION Spec
INVARIANTS Conforms
VIEW View
CHECK_DEADLOCK FALSE
