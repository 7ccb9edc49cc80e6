CONSTANTS Algo = "reinforce"
 NEnv = 1
 T = 3
 MaxT = 10
 Gen = FALSE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms Bounded
CHECK_DEADLOCK FALSE
