CONSTANTS NEnv = 1
 MaxT = 6
 Gen = TRUE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms Chains
CHECK_DEADLOCK FALSE
