CONSTANTS Fam = "td3"
 MaxB = 2
 MaxN = 2
 Gen = FALSE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms Pessimistic NoBootstrap
CHECK_DEADLOCK FALSE
