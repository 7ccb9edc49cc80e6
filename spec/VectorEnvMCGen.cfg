CONSTANTS N = 2
 Calls = 3
 Gen = TRUE
 Bad = FALSE
SPECIFICATION Spec
INVARIANTS Conforms InStep
VIEW View
CHECK_DEADLOCK FALSE
