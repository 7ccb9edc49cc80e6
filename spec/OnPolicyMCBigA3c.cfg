CONSTANTS Algo = "a3c"
 NEnv = 1
 T = 4
 MaxT = 10
 Gen = FALSE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms Bounded
CHECK_DEADLOCK FALSE
