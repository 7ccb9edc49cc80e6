CONSTANTS N = 2
 Calls = 4
 Gen = FALSE
 Bad = FALSE
SPECIFICATION Spec
INVARIANTS Conforms InStep
VIEW View
CHECK_DEADLOCK FALSE
