CONSTANTS NEnv = 2
 MaxT = 3
 Gen = TRUE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms Chains
CHECK_DEADLOCK FALSE
