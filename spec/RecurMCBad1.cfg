CONSTANTS NEnv = 2
 MaxT = 3
 Gen = FALSE
 Mut = "shared"
SPECIFICATION Spec
INVARIANTS Conforms Chains
CHECK_DEADLOCK FALSE
