CONSTANTS N = 2
 K = 3
 Calls = 5
 Gen = TRUE
 Refill = TRUE
SPECIFICATION Spec
INVARIANTS Conforms
VIEW View
CHECK_DEADLOCK FALSE
