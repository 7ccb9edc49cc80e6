CONSTANTS N = 2
 Calls = 4
 Gen = FALSE
 Bad = TRUE
SPECIFICATION Spec
INVARIANTS Conforms 
VIEW View
CHECK_DEADLOCK FALSE
