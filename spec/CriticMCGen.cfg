CONSTANTS Fam = "ddpg"
 MaxB = 2
 MaxN = 2
 Gen = TRUE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms Pessimistic NoBootstrap
CHECK_DEADLOCK FALSE
