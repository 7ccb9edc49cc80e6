CONSTANTS Fam = "ddpg"
 MaxB = 1
 MaxN = 2
 Gen = FALSE
 Mut = "oldcritic"
SPECIFICATION Spec
INVARIANTS Conforms Pessimistic NoBootstrap
CHECK_DEADLOCK FALSE
