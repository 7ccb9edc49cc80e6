CONSTANTS Algo = "reinforce"
 NEnv = 1
 T = 2
 MaxT = 6
 Gen = FALSE
 Mut = "nodrop"
SPECIFICATION Spec
INVARIANTS Conforms Bounded
CHECK_DEADLOCK FALSE
