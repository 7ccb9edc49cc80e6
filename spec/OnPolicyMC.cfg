CONSTANTS Algo = "a2c"
 NEnv = 2
 T = 2
 MaxT = 4
 Gen = FALSE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms Bounded
CHECK_DEADLOCK FALSE
