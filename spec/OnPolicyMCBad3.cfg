CONSTANTS Algo = "a3c"
 NEnv = 1
 T = 3
 MaxT = 6
 Gen = FALSE
 Mut = "early"
SPECIFICATION Spec
INVARIANTS Conforms Bounded
CHECK_DEADLOCK FALSE
