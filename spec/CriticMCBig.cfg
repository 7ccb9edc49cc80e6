CONSTANTS Fam = "sac"
 MaxB = 3
 MaxN = 2
 Gen = FALSE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms Pessimistic NoBootstrap
CHECK_DEADLOCK FALSE
