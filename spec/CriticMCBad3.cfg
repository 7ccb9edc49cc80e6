CONSTANTS Fam = "sac"
 MaxB = 1
 MaxN = 2
 Gen = FALSE
 Mut = "noentropy"
SPECIFICATION Spec
INVARIANTS Conforms Pessimistic NoBootstrap
CHECK_DEADLOCK FALSE
