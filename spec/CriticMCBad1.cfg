CONSTANTS Fam = "ddpg"
 MaxB = 1
 MaxN = 2
 Gen = FALSE
 Mut = "gamma"
SPECIFICATION Spec
INVARIANTS Conforms Pessimistic NoBootstrap
CHECK_DEADLOCK FALSE
