CONSTANTS NEnv = 2
 MaxT = 4
 Gen = FALSE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms Chains
CHECK_DEADLOCK FALSE
