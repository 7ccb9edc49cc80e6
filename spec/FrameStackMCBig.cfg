CONSTANTS N = 3
 K = 4
 Calls = 6
 Gen = FALSE
 Refill = TRUE
SPECIFICATION Spec
INVARIANTS Conforms
VIEW View
CHECK_DEADLOCK FALSE
