CONSTANTS Algo = "reinforce"
 NEnv = 1
 T = 2
 MaxT = 7
 Gen = FALSE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms Bounded
CHECK_DEADLOCK FALSE
