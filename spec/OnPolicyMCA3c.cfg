CONSTANTS Algo = "a3c"
 NEnv = 1
 T = 3
 MaxT = 7
 Gen = FALSE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms Bounded
CHECK_DEADLOCK FALSE
