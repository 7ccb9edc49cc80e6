CONSTANTS Algo = "a2c"
 NEnv = 2
 T = 3
 MaxT = 6
 Gen = FALSE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms Bounded
CHECK_DEADLOCK FALSE
